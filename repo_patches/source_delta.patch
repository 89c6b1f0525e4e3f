From 7f2a6b2b1599780a1bf2b1de8ec72ce3c0bd2ed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 01/33] fix: writing or erasing a record dropped every other
 record with the same value from the indexes

---
 Source/Vault.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 5dbedd0..a302157 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -78,7 +78,7 @@ namespace mvlt
             // Find required data record
             if ((*pairIt).second == dataRecord)
             {
-                TtoVaultRecordHashMap->Erase((*pairIt).first);
+                TtoVaultRecordHashMap->Erase(pairIt);
                 break;
             }
         }
@@ -99,7 +99,7 @@ namespace mvlt
             // Find required data record
             if ((*pairIt).second == dataRecord)
             {
-                TtoVaultRecordMap->Erase((*pairIt).first);
+                TtoVaultRecordMap->Erase(pairIt);
                 break;
             }
         }
@@ -493,7 +493,7 @@ namespace mvlt
                 {
                     if ((*pairIt).second == record)
                     {
-                        TtoVaultRecordMap->Erase((*pairIt).first);
+                        TtoVaultRecordMap->Erase(pairIt);
                         break;
                     }
                 }
-- 
2.43.0


From 35bce960d538fb7c9ba3ca43d4a4af1188087cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:15 +0000
Subject: [PATCH 02/33] fix: writing a unique key tested the old value instead
 of the new one, so every write was refused

---
 Source/Vault.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index a302157..40577f0 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -60,11 +60,9 @@ namespace mvlt
         T oldData{};
         dataRecord->GetData(key, oldData);
 
-        // Remove oldData from TtoVaultRecordHashMap from VaultHashMapStructure
-        auto FirstAndLastIteratorsWithKeyOnHashMap = TtoVaultRecordHashMap->EqualRange(oldData);
-
-        // Check if it is unique key and try to set duplicate data
-        if (!TtoVaultRecordHashMap->IsMultiContainer() && FirstAndLastIteratorsWithKeyOnHashMap.first != TtoVaultRecordHashMap->End())
+        // Check if it is unique key and try to set data which is already used by another record
+        auto newDataIt = TtoVaultRecordHashMap->Find(data);
+        if (!TtoVaultRecordHashMap->IsMultiContainer() && newDataIt != TtoVaultRecordHashMap->End() && (*newDataIt).second != dataRecord)
         {
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::UniqueKeyValueAlredyInSet;
@@ -72,6 +70,8 @@ namespace mvlt
             return res;
         }
 
+        // Remove oldData from TtoVaultRecordHashMap from VaultHashMapStructure
+        auto FirstAndLastIteratorsWithKeyOnHashMap = TtoVaultRecordHashMap->EqualRange(oldData);
         // Iterate over all data records with oldData key
         for (auto& pairIt = FirstAndLastIteratorsWithKeyOnHashMap.first; pairIt != FirstAndLastIteratorsWithKeyOnHashMap.second; ++pairIt)
         {
-- 
2.43.0


From ecd92fd1045389f1b1a5d3df26648e338db0cfd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:35 +0000
Subject: [PATCH 03/33] fix: copies and record sets of a vault treated its
 unique keys as ordinary keys

---
 Source/Vault.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 40577f0..a6c050e 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -518,7 +518,7 @@ namespace mvlt
         
         VaultKeyCopiers.emplace(key, [=](Vault* vaultRecordSet)
         {
-            vaultRecordSet->AddKey(key, defaultKeyValue);
+            vaultRecordSet->AddKey(key, defaultKeyValue, isUniqueKey, false, {[&](std::size_t, const VaultRecordRef&) -> T{ return defaultKeyValue; }});
         });
 
         if (VaultDerivedClass == VaultDerivedClasses::VaultBase)
-- 
2.43.0


From 9d06458cec012039d6c2d73c742ac621fed74e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:41 +0000
Subject: [PATCH 04/33] fix: references from sorted or requested set records
 wrote only to the set, not to the vault

---
 Source/VaultRecordRef.cpp | 4 ++++
 Source/VaultRecordSet.h   | 3 +++
 2 files changed, 7 insertions(+)

diff --git a/Source/VaultRecordRef.cpp b/Source/VaultRecordRef.cpp
index 7f5f6e3..26c5eec 100644
--- a/Source/VaultRecordRef.cpp
+++ b/Source/VaultRecordRef.cpp
@@ -8,6 +8,10 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
+        // The reference must work with the vault which owns the record, even if it was received from a record set
+        if (vlt->VaultDerivedClass == Vault::VaultDerivedClasses::VaultRecordSetDerived)
+            vlt = static_cast<VaultRecordSet*>(vlt)->ParentVault;
+
         vlt->RecursiveReadWriteMtx.ReadLock();
 
         if (vaultRecord != nullptr) vaultRecord->AddRef();
diff --git a/Source/VaultRecordSet.h b/Source/VaultRecordSet.h
index cc1160f..fc7f1d5 100644
--- a/Source/VaultRecordSet.h
+++ b/Source/VaultRecordSet.h
@@ -72,6 +72,9 @@ namespace mvlt
         /// Make VaultRecord class friend
         friend VaultRecord;
 
+        /// Make VaultRecordRef class friend
+        friend VaultRecordRef;
+
         /// \brief Default constructor
         VaultRecordSet() noexcept;
 
-- 
2.43.0


From f22d920c09f78b6c8d2b0fc10dd0afb5bf6f1678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:12 +0000
Subject: [PATCH 05/33] fix: a unique key added to a vault got other values in
 its record sets than in the records

---
 Source/Vault.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index a6c050e..d2c7d60 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -526,7 +526,7 @@ namespace mvlt
             for (VaultRecordSet* set : RecordSetsSet)
             {
                 if (isUniqueKey)
-                    set->AddUniqueKey(key, uniqueKeyFunction);
+                    set->AddKey(key, defaultKeyValue, true, false, {[&](std::size_t, const VaultRecordRef& ref) -> T { T value{}; ref.GetData(key, value); return value; }});
                 else
                     set->AddKey(key, defaultKeyValue);
                 set->KeysOrder.emplace_back(key);
-- 
2.43.0


From 00f7d70016eb7d69e6d74cbbddc8643e9ae9f7cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:43 +0000
Subject: [PATCH 06/33] fix: records joined or intersected into a set did not
 know the set, so erasing them left it with dangling pointers

---
 Source/VaultRecordSet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index af78276..1f75c9c 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -425,6 +425,8 @@ namespace mvlt
 
                     for (auto& adder : VaultRecordAdders)
                         adder.second(record);
+
+                    record->AddToDependentSets(this);
                 }
             }
         }
@@ -674,6 +676,8 @@ namespace mvlt
 
                         for (auto& adder : res.VaultRecordAdders)
                             adder.second(record);
+
+                        record->AddToDependentSets(&res);
                     }
                 }
             }
@@ -689,6 +693,8 @@ namespace mvlt
 
                         for (auto& adder : res.VaultRecordAdders)
                             adder.second(record);
+
+                        record->AddToDependentSets(&res);
                     }
                 }
             }
-- 
2.43.0


From ec6506c15669d336e926a5a5911e7587db94c833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:29 +0000
Subject: [PATCH 07/33] fix: records removed from a set kept a pointer to it
 and used it after the set was destroyed

---
 Source/Vault.cpp       | 2 ++
 Source/Vault.hpp       | 4 ++++
 Source/VaultRecord.cpp | 7 ++++++-
 3 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 8ee1abb..cbd127b 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -32,6 +32,8 @@ namespace mvlt
             recordToErase->RemoveFromDependentSets();
             recordToErase->Invalidate();
         }
+        else
+            recordToErase->EraseDependentSet(static_cast<VaultRecordSet*>(this));
 
         if (wasDeleted != nullptr) *wasDeleted = true;
         return dataIt;
diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index d2c7d60..2fb9514 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -991,6 +991,8 @@ namespace mvlt
                 tmpRec->RemoveFromDependentSets();
                 tmpRec->Invalidate();
             }
+            else
+                tmpRec->EraseDependentSet(static_cast<VaultRecordSet*>(this));
 
             res.IsOperationSuccess = true;
             res.ResultCode = VaultOperationResultCode::Success;
@@ -1072,6 +1074,8 @@ namespace mvlt
                     tmpRec->RemoveFromDependentSets();
                     tmpRec->Invalidate();
                 }
+                else
+                    tmpRec->EraseDependentSet(static_cast<VaultRecordSet*>(this));
                 
                 if (counter >= amountOfRecords) break;
                 
diff --git a/Source/VaultRecord.cpp b/Source/VaultRecord.cpp
index 72b65cf..0a1e22d 100644
--- a/Source/VaultRecord.cpp
+++ b/Source/VaultRecord.cpp
@@ -115,7 +115,12 @@ namespace mvlt
         DBG_LOG_ENTER();
 
         VaultRecordMutex.lock();
-        for (VaultRecordSet* set : dependentVaultRecordSets)
+
+        // The sets delete themselves from dependentVaultRecordSets, so it is not possible to iterate over it
+        std::unordered_set<VaultRecordSet*> sets;
+        sets.swap(dependentVaultRecordSets);
+
+        for (VaultRecordSet* set : sets)
             set->RemoveRecord(this, nullptr);
 
         VaultRecordMutex.unlock();
-- 
2.43.0


From 9328ac1d4d6ad2d2a977ef469bdbcf20fbbb0a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:35 +0000
Subject: [PATCH 08/33] fix: a copy of a detached record set behaved as a vault
 and destroyed the records removed from it

---
 Source/VaultRecordSet.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index 1f75c9c..6f376b8 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -83,7 +83,7 @@ namespace mvlt
     }
 
     // codechecker_intentional [all] its not call parent class copy constructor because it is other copying style
-    VaultRecordSet::VaultRecordSet(const VaultRecordSet& other) noexcept : Vault()
+    VaultRecordSet::VaultRecordSet(const VaultRecordSet& other) noexcept : VaultRecordSet()
     {
         DBG_LOG_ENTER();
 
@@ -105,7 +105,7 @@ namespace mvlt
         return *this;
     }
 
-    VaultRecordSet::VaultRecordSet(VaultRecordSet&& other) noexcept
+    VaultRecordSet::VaultRecordSet(VaultRecordSet&& other) noexcept : VaultRecordSet()
     {
         DBG_LOG_ENTER();
 
-- 
2.43.0


From 3f78256156cf612ccfc741adc99f99997f28636e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:56 +0000
Subject: [PATCH 09/33] fix: moving a record set left its indexes empty and
 kept the old content of the target

---
 Source/VaultRecordSet.cpp | 31 +++++--------------------------
 1 file changed, 5 insertions(+), 26 deletions(-)

diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index 6f376b8..32df6f9 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -48,30 +48,9 @@ namespace mvlt
 
         WriteLock<RecursiveReadWriteMutex> writeLock(other.ParentVault->RecursiveReadWriteMtx);
 
-        VaultDerivedClass = VaultDerivedClasses::VaultRecordSetDerived;
-
-        for (VaultRecord* record : other.RecordsSet)
-        {
-            record->EraseDependentSet(&other);
-            record->AddToDependentSets(this);
-        }
-
-        ParentVault = other.ParentVault;
-        other.ParentVault = nullptr;
-
-        for (auto& keyCopierIt : other.VaultKeyCopiers)
-            keyCopierIt.second(this);
-
-        KeysOrder = std::move(other.KeysOrder);
-        UniqueKeys = std::move(other.UniqueKeys);
-        InvalidFileRecords = std::move(other.InvalidFileRecords);
-        RecordsSet = std::move(other.RecordsSet);
-        RecordSetsSet = std::move(other.RecordSetsSet);
-
-        ParentVault->RecordSetsSet.erase(&other);
-        ParentVault->RecordSetsSet.emplace(this);
-
-        RecursiveReadWriteMtx.Disable();
+        // The indexes of this set must be filled and the other set must be detached from the vault
+        CopySet(other);
+        other.Reset();
     }
 
     VaultRecordSet::VaultRecordSet() noexcept
@@ -119,10 +98,10 @@ namespace mvlt
 
         if (&other != this)
         {
+            Reset();
+
             if (other.GetIsParentVaultValid())
                 MoveSet(std::move(other));
-            else
-                Reset();
         }
 
         return *this;
-- 
2.43.0


From f8d5091df268efc81693565094dca5165ffa116b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:39 +0000
Subject: [PATCH 10/33] fix: a refused unique key left empty indexes in the
 vault

---
 Source/Vault.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 2fb9514..a0be065 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -344,6 +344,14 @@ namespace mvlt
             return res;
         }
 
+        // If no lamda provided and vault not empty
+        if (isUniqueKey && isUniqueKeyWithoutLambda && !RecordsSet.empty())
+        {
+            res.IsOperationSuccess = false;
+            res.ResultCode = VaultOperationResultCode::TryToAddUniqueKeyInNonEmptyVaultWithoutLambda;
+            return res;
+        }
+
         // Create new hash map to store data with template T key
         UnorderedMap<T, VaultRecord*>* TtoVaultRecordHashMap = new UnorderedMap<T, VaultRecord*>(!isUniqueKey);
         VaultHashMapStructure.SetData(key, TtoVaultRecordHashMap, [](const void* ptr)
@@ -363,14 +371,6 @@ namespace mvlt
         // Add new data to record set
         if (isUniqueKey)
         {
-            // If no lamda provided and vault not empty
-            if (isUniqueKeyWithoutLambda && !RecordsSet.empty())
-            {
-                res.IsOperationSuccess = false;
-                res.ResultCode = VaultOperationResultCode::TryToAddUniqueKeyInNonEmptyVaultWithoutLambda;
-                return res;
-            }
-
             std::size_t counter = 0;
             std::vector<T> cachedData;
             bool isCorrectKey = true;
-- 
2.43.0


From 40e2eb13b2871534b1abea9734f17665fa4408af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:46 +0000
Subject: [PATCH 11/33] fix: record sets of a moved vault kept working with the
 source of the move

---
 Source/Vault.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index cbd127b..6c76f30 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -282,6 +282,10 @@ namespace mvlt
         InvalidFileRecords = std::move(other.InvalidFileRecords);
         RecordsSet = std::move(other.RecordsSet);
         RecordSetsSet = std::move(other.RecordSetsSet);
+
+        // The sets must work with the new vault
+        for (VaultRecordSet* set : RecordSetsSet)
+            set->ParentVault = this;
     }
 
     Vault& Vault::operator=(Vault&& other) noexcept
@@ -310,6 +314,10 @@ namespace mvlt
             InvalidFileRecords = std::move(other.InvalidFileRecords);
             RecordsSet = std::move(other.RecordsSet);
             RecordSetsSet = std::move(other.RecordSetsSet);
+
+            // The sets must work with the new vault
+            for (VaultRecordSet* set : RecordSetsSet)
+                set->ParentVault = this;
         }
 
         return *this;
-- 
2.43.0


From 361e22660d24efe986384894b21f6287067f2ac7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:52 +0000
Subject: [PATCH 12/33] fix: a copied vault lost the updated default values of
 the keys

---
 Source/Vault.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 6c76f30..dd98dc3 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -201,6 +201,7 @@ namespace mvlt
             keyCopierIt.second(this);
 
         // Set proper key order
+        RecordTemplate = other.RecordTemplate;
         KeysOrder = other.KeysOrder;
 
         // Set unique keys
@@ -238,6 +239,7 @@ namespace mvlt
                 keyCopierIt.second(this);
 
             // Set proper key order
+            RecordTemplate = other.RecordTemplate;
             KeysOrder = other.KeysOrder;
 
             // Set unique keys
-- 
2.43.0


From c988372601066fa816731c0d786e4fc4c1079e5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:12 +0000
Subject: [PATCH 13/33] fix: a record set reported the default value a key had
 when the set was created

---
 Source/VaultRecordSet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/VaultRecordSet.hpp b/Source/VaultRecordSet.hpp
index 36067e3..c1c2173 100644
--- a/Source/VaultRecordSet.hpp
+++ b/Source/VaultRecordSet.hpp
@@ -73,7 +73,7 @@ namespace mvlt
         if (GetIsParentVaultValid())
         {
             ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
-            res = Vault::GetKeyValue(key, defaultKeyValue);
+            res = ParentVault->GetKeyValue(key, defaultKeyValue);
         }
         else
         {
-- 
2.43.0


From c4162fcf3975e73173dd1cdc6c23a8645e949e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:07 +0000
Subject: [PATCH 14/33] fix: operations through a reference to an erased record
 used the vault before checking the record

---
 Source/VaultRecordRef.cpp | 12 ++++++++++--
 Source/VaultRecordRef.hpp |  4 ++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/Source/VaultRecordRef.cpp b/Source/VaultRecordRef.cpp
index 26c5eec..b4f4318 100644
--- a/Source/VaultRecordRef.cpp
+++ b/Source/VaultRecordRef.cpp
@@ -158,6 +158,14 @@ namespace mvlt
 
         VaultOperationResult res;
 
+        if (!IsValid())
+        {
+            res.IsOperationSuccess = false;
+            res.ResultCode = VaultOperationResultCode::DataRecordNotValid;
+
+            return res;
+        }
+
         WriteLock<RecursiveReadWriteMutex> writeLock(Vlt->RecursiveReadWriteMtx);
 
         // Copy data from function parametrs
@@ -179,7 +187,7 @@ namespace mvlt
         res.Key = key;
         res.RequestedType = typeid(std::string);
 
-        if (VaultRecordPtr == nullptr)
+        if (!IsValid())
         {
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::DataRecordNotValid;
@@ -229,7 +237,7 @@ namespace mvlt
 
         bool res = false;
 
-        if (Vlt != nullptr) res = Vlt->IsKeyExist(key);
+        if (IsValid()) res = Vlt->IsKeyExist(key);
 
         return res;
     }
diff --git a/Source/VaultRecordRef.hpp b/Source/VaultRecordRef.hpp
index b3ed023..e7c6557 100644
--- a/Source/VaultRecordRef.hpp
+++ b/Source/VaultRecordRef.hpp
@@ -19,7 +19,7 @@ namespace mvlt
         res.Key = key;
         res.RequestedType = typeid(T);
 
-        if (VaultRecordPtr == nullptr)
+        if (!IsValid())
         {
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::DataRecordNotValid;
@@ -56,7 +56,7 @@ namespace mvlt
         res.RequestedType = typeid(T);
 
 
-        if (VaultRecordPtr == nullptr)
+        if (!IsValid())
         {
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::DataRecordNotValid;
-- 
2.43.0


From 4c6792894b411ba4203210154012dd6774b5b7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:21 +0000
Subject: [PATCH 15/33] fix: a value holder assigned from an empty one kept the
 type of its old value

---
 Source/DataSaver.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Source/DataSaver.cpp b/Source/DataSaver.cpp
index 4029dab..c16f03c 100644
--- a/Source/DataSaver.cpp
+++ b/Source/DataSaver.cpp
@@ -46,6 +46,12 @@ namespace mvlt
             {
                 // If other is empty clear the variables
                 Ptr = nullptr;
+                DataType = typeid(void);
+                CopyFunc = nullptr;
+                ToStringFunc = nullptr;
+                DeleteFunc = nullptr;
+                CustomDeleteFunc = nullptr;
+                SetDataFromStringFunc = nullptr;
             }
         }
 
-- 
2.43.0


From 1ca2d69a69d2c1598337b3b12dfa7501ada7014f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:40 +0000
Subject: [PATCH 16/33] fix: reading a number which does not fit in its type
 overflowed instead of being refused

---
 Source/Strings/FromString.h | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/Source/Strings/FromString.h b/Source/Strings/FromString.h
index 4a2b38f..b5e959c 100644
--- a/Source/Strings/FromString.h
+++ b/Source/Strings/FromString.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <string>
+#include <limits>
 #include <cstdint>
 
 namespace mvlt
@@ -195,16 +196,24 @@ namespace mvlt
             i = 1;
         }
 
+        // The number is collected as a negative one, because there is no positive number for the minimum value
         for (; i < stringToCopyDataFrom.length(); ++i)
         {
             if (stringToCopyDataFrom[i] < '0' || stringToCopyDataFrom[i] > '9') return false;
-            res *= 10;
-            res += static_cast<int>(stringToCopyDataFrom[i] - '0');
+            const int digit = stringToCopyDataFrom[i] - '0';
+
+            // The number does not fit in the type
+            if (res < (std::numeric_limits<T>::min() + digit) / 10) return false;
+            res = static_cast<T>(res * 10 - digit);
+        }
+
+        if (!isNegative)
+        {
+            if (res == std::numeric_limits<T>::min()) return false;
+            res = static_cast<T>(-res);
         }
 
-        // codechecker_intentional [all] its not error because negative numbers handled by if
-        if (isNegative) data = res * -1;
-        else data = res;
+        data = res;
 
         return true;
     }
@@ -281,8 +290,11 @@ namespace mvlt
         for (std::size_t i = 0; i < stringToCopyDataFrom.length(); ++i)
         {
             if (stringToCopyDataFrom[i] < '0' || stringToCopyDataFrom[i] > '9') return false;
-            res *= 10;
-            res += static_cast<int>(stringToCopyDataFrom[i] - '0');
+            const T digit = static_cast<T>(stringToCopyDataFrom[i] - '0');
+
+            // The number does not fit in the type
+            if (res > (std::numeric_limits<T>::max() - digit) / 10) return false;
+            res = static_cast<T>(res * 10 + digit);
         }
 
         data = res;
-- 
2.43.0


From ba831f7144dc9e0769679446695423584fd0d720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:41 +0000
Subject: [PATCH 17/33] fix: negative text was read into unsigned numbers

---
 Source/Strings/FromString.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Source/Strings/FromString.h b/Source/Strings/FromString.h
index b5e959c..eb32178 100644
--- a/Source/Strings/FromString.h
+++ b/Source/Strings/FromString.h
@@ -314,7 +314,7 @@ namespace mvlt
     template <>
     inline bool FromString(const std::string& stringToCopyDataFrom, std::uint16_t& data) noexcept
     {
-        return FromStringSignedInt(stringToCopyDataFrom, data);
+        return FromStringUnsignedInt(stringToCopyDataFrom, data);
     }
 
     /**
@@ -330,7 +330,7 @@ namespace mvlt
     template <>
     inline bool FromString(const std::string& stringToCopyDataFrom, std::uint32_t& data) noexcept
     {
-        return FromStringSignedInt(stringToCopyDataFrom, data);
+        return FromStringUnsignedInt(stringToCopyDataFrom, data);
     }
 
     /**
@@ -346,7 +346,7 @@ namespace mvlt
     template <>
     inline bool FromString(const std::string& stringToCopyDataFrom, std::uint64_t& data) noexcept
     {
-        return FromStringSignedInt(stringToCopyDataFrom, data);
+        return FromStringUnsignedInt(stringToCopyDataFrom, data);
     }
 
     /**@} */
-- 
2.43.0


From 4c2fc5a703e01eefe68118df139f79ded82ab69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:30 +0000
Subject: [PATCH 18/33] fix: 8-bit numbers could be written as text but not
 read back

---
 Source/Strings/FromString.h | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/Source/Strings/FromString.h b/Source/Strings/FromString.h
index eb32178..060a82b 100644
--- a/Source/Strings/FromString.h
+++ b/Source/Strings/FromString.h
@@ -218,6 +218,22 @@ namespace mvlt
         return true;
     }
 
+    /**
+        \brief FromString specialization for working with std::int8_t int
+
+        \tparam <std::int8_t> int as a type
+
+        \param [in] stringToCopyDataFrom the string to be converted to type int
+        \param [out] data the variable where the converted string will be written
+
+        \return Returns true if the conversion was successful, otherwise it returns false
+    */
+    template <>
+    inline bool FromString(const std::string& stringToCopyDataFrom, std::int8_t& data) noexcept
+    {
+        return FromStringSignedInt(stringToCopyDataFrom, data);
+    }
+
     /**
         \brief FromString specialization for working with std::int16_t int
 
@@ -301,6 +317,22 @@ namespace mvlt
         return true;
     }
 
+    /**
+        \brief FromString specialization for working with std::uint8_t
+
+        \tparam <std::uint8_t> int as a type
+
+        \param [in] stringToCopyDataFrom the string to be converted to type unsigned int
+        \param [out] data the variable where the converted string will be written
+
+        \return Returns true if the conversion was successful, otherwise it returns false
+    */
+    template <>
+    inline bool FromString(const std::string& stringToCopyDataFrom, std::uint8_t& data) noexcept
+    {
+        return FromStringUnsignedInt(stringToCopyDataFrom, data);
+    }
+
     /**
         \brief FromString specialization for working with std::uint16_t
 
-- 
2.43.0


From dc5458a18cc4074cf30d37126291d9b80908dcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:07 +0000
Subject: [PATCH 19/33] fix: reading a long fractional number overflowed an int

---
 Source/Strings/FromString.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Strings/FromString.h b/Source/Strings/FromString.h
index 060a82b..f8aba66 100644
--- a/Source/Strings/FromString.h
+++ b/Source/Strings/FromString.h
@@ -95,7 +95,7 @@ namespace mvlt
     {
         if (stringToCopyDataFrom.length() == 0) return false;
 
-        int integer = 0, fractional = 0;
+        T integer = 0, fractional = 0;
 
         std::size_t i = 0;
         bool isNegative = false;
-- 
2.43.0


From d833ff8734513c99c82cd105aa21239854527f86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:57 +0000
Subject: [PATCH 20/33] fix: quotes, backslashes and control characters were
 written to json strings as they are

---
 Source/Strings/ToJson.cpp | 27 ++++++++++++++++++++++++++-
 Source/Strings/ToJson.h   | 11 ++++++++++-
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/Source/Strings/ToJson.cpp b/Source/Strings/ToJson.cpp
index 8ee39dc..c8e7f37 100644
--- a/Source/Strings/ToJson.cpp
+++ b/Source/Strings/ToJson.cpp
@@ -20,13 +20,38 @@ namespace mvlt
             return true;
     }
 
+    std::string EscapeJsonString(const std::string& str)
+    {
+        static constexpr char hexChars[] = "0123456789abcdef";
+        std::string res;
+
+        for (const char& symbol : str)
+        {
+            if (symbol == '"' || symbol == '\\')
+            {
+                res += '\\';
+                res += symbol;
+            }
+            else if (symbol >= 0 && symbol < 32)
+            {
+                res += "\\u00";
+                res += hexChars[symbol / 16];
+                res += hexChars[symbol % 16];
+            }
+            else
+                res += symbol;
+        }
+
+        return res;
+    }
+
     std::string ToJson(const DataSaver& dataSaver)
     {
         std::string res;
         std::type_index dataType = dataSaver.GetDataType();
 
         if (IsQuotedJsonType(dataType))
-            res = "\"" + dataSaver.Str() + "\"";
+            res = "\"" + EscapeJsonString(dataSaver.Str()) + "\"";
         else
             res = dataSaver.Str();
 
diff --git a/Source/Strings/ToJson.h b/Source/Strings/ToJson.h
index 066bbf3..2996b62 100644
--- a/Source/Strings/ToJson.h
+++ b/Source/Strings/ToJson.h
@@ -13,6 +13,15 @@ namespace mvlt
     */
     bool IsQuotedJsonType(const std::type_index& dataType);
 
+    /**
+        \brief A function for escaping the characters that can not be inside a json string literal
+
+        \param [in] str string to escape
+
+        \return escaped string
+    */
+    std::string EscapeJsonString(const std::string& str);
+
     /**
         \brief Method for convert DataSaver to json string
 
@@ -37,7 +46,7 @@ namespace mvlt
         std::string res;
 
         if (IsQuotedJsonType(typeid(T)))
-            res = "\"" + ToString(data) + "\"";
+            res = "\"" + EscapeJsonString(ToString(data)) + "\"";
         else
             res = ToString(data);
 
-- 
2.43.0


From e8b4e5cf59f3945a25fb38bcb4332fcf1df958c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:24 +0000
Subject: [PATCH 21/33] fix: empty fields at the end of a csv row were lost

---
 Source/CsvParser/CsvParser.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Source/CsvParser/CsvParser.cpp b/Source/CsvParser/CsvParser.cpp
index 3969a08..31c5ae6 100644
--- a/Source/CsvParser/CsvParser.cpp
+++ b/Source/CsvParser/CsvParser.cpp
@@ -47,6 +47,9 @@ namespace mvlt
         // Is escaping flag
         bool isEscaping = false;
 
+        // Was there a " symbol in the current record pole
+        bool isQuoted = false;
+
         // Record pole
         std::string recordPole;
 
@@ -61,7 +64,7 @@ namespace mvlt
                 if (!isEscaping && (FileReader.GetChar() == 13 || FileReader.GetChar() == 10 )) // 13 - CR or 0d. 10 - LF or 0a.
                 {
                     // Add last record
-                    if (!recordPole.empty())
+                    if (!recordPole.empty() || !vectorWithNext.empty() || isQuoted)
                         vectorWithNext.emplace_back(std::move(recordPole));
 
                     // Check if it is CRLF.
@@ -80,6 +83,7 @@ namespace mvlt
                     {
                         // Start escaping
                         isEscaping = true;
+                        isQuoted = true;
                         recordPole.clear();
                         continue;
                     }
@@ -103,6 +107,7 @@ namespace mvlt
                     // Set new record pole to record
                     vectorWithNext.emplace_back(std::move(recordPole));
                     recordPole.clear();
+                    isQuoted = false;
                     continue;
                 }
                 
@@ -112,7 +117,7 @@ namespace mvlt
         }
 
         // Add last record
-        if (!recordPole.empty())
+        if (!recordPole.empty() || !vectorWithNext.empty() || isQuoted)
             vectorWithNext.emplace_back(std::move(recordPole));
 
         if (!vectorWithNext.empty())
-- 
2.43.0


From f3e89ef21cb9e3e2d70f35611979aa30b71e8ed8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:29 +0000
Subject: [PATCH 22/33] fix: a blank line after a line feed was taken for a
 part of the line break

---
 Source/CsvParser/CsvParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/CsvParser/CsvParser.cpp b/Source/CsvParser/CsvParser.cpp
index 31c5ae6..4f1070d 100644
--- a/Source/CsvParser/CsvParser.cpp
+++ b/Source/CsvParser/CsvParser.cpp
@@ -68,7 +68,7 @@ namespace mvlt
                         vectorWithNext.emplace_back(std::move(recordPole));
 
                     // Check if it is CRLF.
-                    if (FileReader.GetCurrentPos() < FileReader.GetFileSize() - 1 && FileReader.GetNextChar() == 10)
+                    if (FileReader.GetChar() == 13 && FileReader.GetCurrentPos() < FileReader.GetFileSize() - 1 && FileReader.GetNextChar() == 10)
                         FileReader.Move();
 
                     FileReader.Move();
-- 
2.43.0


From c9821ea10439c00f2ab1fb7d3897cffd4316e3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:27 +0000
Subject: [PATCH 23/33] fix: csv fields with a carriage return or the chosen
 separator were written without quotes

---
 Source/CsvParser/CsvParser.cpp | 6 +++---
 Source/CsvParser/CsvParser.h   | 3 ++-
 Source/Vault.cpp               | 4 ++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/Source/CsvParser/CsvParser.cpp b/Source/CsvParser/CsvParser.cpp
index 4f1070d..3a700ac 100644
--- a/Source/CsvParser/CsvParser.cpp
+++ b/Source/CsvParser/CsvParser.cpp
@@ -2,7 +2,7 @@
 
 namespace mvlt
 {
-    std::string FormatStringToCsv(const std::string& str) noexcept
+    std::string FormatStringToCsv(const std::string& str, const std::string& separator) noexcept
     {
         bool isEscapingRequired = false;
         std::string res;
@@ -16,10 +16,10 @@ namespace mvlt
                 continue;
             }
 
-            if (symbol == ',')
+            if (symbol == ',' || separator.find(symbol) != std::string::npos)
                 isEscapingRequired = true;
 
-            if (symbol == '\n')
+            if (symbol == '\n' || symbol == '\r')
                 isEscapingRequired = true;
 
             res += symbol;
diff --git a/Source/CsvParser/CsvParser.h b/Source/CsvParser/CsvParser.h
index 308a38c..8421607 100644
--- a/Source/CsvParser/CsvParser.h
+++ b/Source/CsvParser/CsvParser.h
@@ -30,10 +30,11 @@ namespace mvlt
         - "  - a quotation mark to end escaping
 
         \param [in] str the string to be converted
+        \param [in] separator the separator of the fields
 
         \return returns a string in csv format
     */
-    std::string FormatStringToCsv(const std::string& str) noexcept;
+    std::string FormatStringToCsv(const std::string& str, const std::string& separator = ",") noexcept;
 
     /// \brief A class for parsing csv files that provides data in a form similar to generators
     class CsvParser
diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index dd98dc3..8b1ee6c 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -1007,7 +1007,7 @@ namespace mvlt
                 {
                     std::string data;
                     record->GetDataAsString(key, data);
-                    csvFile << FormatStringToCsv(data);
+                    csvFile << FormatStringToCsv(data, separator);
 
                     // Checking not to write a comma to the end of the line
                     if (counter == 1) break;
@@ -1027,7 +1027,7 @@ namespace mvlt
                 {
                     std::string data;
                     record->GetDataAsString(key, data);
-                    csvFile << FormatStringToCsv(data);
+                    csvFile << FormatStringToCsv(data, separator);
 
                     // Checking not to write a comma to the end of the line
                     if (counter == 1) break;
-- 
2.43.0


From 8651ae14445d6cc46b825674846f346fdecd1e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:47 +0000
Subject: [PATCH 24/33] fix: saving a vault without keys read the first key of
 an empty list

---
 Source/Vault.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 8b1ee6c..2a8960d 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -980,8 +980,11 @@ namespace mvlt
             if (keys.empty())
             {
                 auto keysOrderIt = KeysOrder.cbegin();
-                csvFile << *keysOrderIt;
-                ++keysOrderIt;
+                if (KeysOrder.size() != 0)
+                {
+                    csvFile << *keysOrderIt;
+                    ++keysOrderIt;
+                }
                 for (;keysOrderIt != KeysOrder.cend(); ++keysOrderIt) csvFile << separator << *keysOrderIt;
                 if (KeysOrder.size() != 0)
                     csvFile.write(endOfLine, 2);
-- 
2.43.0


From b00c82fa63d84fdeb050184368e95d7bcef95435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:55 +0000
Subject: [PATCH 25/33] fix: the names of the keys were written to csv files
 without quotes

---
 Source/Vault.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 2a8960d..b518df0 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -982,19 +982,19 @@ namespace mvlt
                 auto keysOrderIt = KeysOrder.cbegin();
                 if (KeysOrder.size() != 0)
                 {
-                    csvFile << *keysOrderIt;
+                    csvFile << FormatStringToCsv(*keysOrderIt, separator);
                     ++keysOrderIt;
                 }
-                for (;keysOrderIt != KeysOrder.cend(); ++keysOrderIt) csvFile << separator << *keysOrderIt;
+                for (;keysOrderIt != KeysOrder.cend(); ++keysOrderIt) csvFile << separator << FormatStringToCsv(*keysOrderIt, separator);
                 if (KeysOrder.size() != 0)
                     csvFile.write(endOfLine, 2);
             }
             else 
             {
                 auto keysOrderIt = keys.cbegin();
-                csvFile << *keysOrderIt;
+                csvFile << FormatStringToCsv(*keysOrderIt, separator);
                 ++keysOrderIt;
-                for (;keysOrderIt != keys.cend(); ++keysOrderIt) csvFile << separator << *keysOrderIt;
+                for (;keysOrderIt != keys.cend(); ++keysOrderIt) csvFile << separator << FormatStringToCsv(*keysOrderIt, separator);
                 if (KeysOrder.size() != 0)
                     csvFile.write(endOfLine, 2);
             }
-- 
2.43.0


From 527838bd1c8621bf08c060f9dc300af833d99cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:02 +0000
Subject: [PATCH 26/33] fix: saved records with a single empty value were lost
 on reading

---
 Source/Vault.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index b518df0..d3c4f02 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -1012,6 +1012,9 @@ namespace mvlt
                     record->GetDataAsString(key, data);
                     csvFile << FormatStringToCsv(data, separator);
 
+                    // A line without symbols is a record without poles
+                    if (KeysOrder.size() == 1 && data.empty()) csvFile << "\"\"";
+
                     // Checking not to write a comma to the end of the line
                     if (counter == 1) break;
 
@@ -1032,6 +1035,9 @@ namespace mvlt
                     record->GetDataAsString(key, data);
                     csvFile << FormatStringToCsv(data, separator);
 
+                    // A line without symbols is a record without poles
+                    if (keys.size() == 1 && data.empty()) csvFile << "\"\"";
+
                     // Checking not to write a comma to the end of the line
                     if (counter == 1) break;
 
-- 
2.43.0


From a09e394a6f5ce9f7c97ec9db853967fe4962c3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:21 +0000
Subject: [PATCH 27/33] fix: a row of a file with more poles than keys was read
 past the end of the keys

---
 Source/Vault.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index d3c4f02..7cc166d 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -99,6 +99,9 @@ namespace mvlt
                     // Iteraror to load keys
                     auto keyOrderIt = KeysOrder.begin();
 
+                    // There is no key to store the poles
+                    if (KeysOrder.empty()) record.clear();
+
                     // Store all keys values to record
                     for (const auto& recordPole : record)
                     {
@@ -112,6 +115,7 @@ namespace mvlt
                         }
 
                         ++keyOrderIt;
+                        if (keyOrderIt == KeysOrder.end()) break;
                     }
                 }
                 else 
-- 
2.43.0


From 6b3649717992719443cf4982468dd4d48d957398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:04 +0000
Subject: [PATCH 28/33] fix: a file reader opened a second time delivered
 nothing or the bytes of the first file

---
 Source/CsvParser/StreamFileReader.cpp | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/Source/CsvParser/StreamFileReader.cpp b/Source/CsvParser/StreamFileReader.cpp
index a5567a8..b724586 100644
--- a/Source/CsvParser/StreamFileReader.cpp
+++ b/Source/CsvParser/StreamFileReader.cpp
@@ -11,6 +11,9 @@ namespace mvlt
 
     bool StreamFileReader::Open(const std::string& fileName) noexcept
     {
+        // Forget the previous file
+        Close();
+
         File.open(fileName, std::ios::binary | std::ios::ate);
         if (!File.is_open()) return false;
 
@@ -127,7 +130,16 @@ namespace mvlt
 
     void StreamFileReader::Close() noexcept
     {
-        File.close();
+        if (File.is_open()) File.close();
+        File.clear();
+
+        if (Data != nullptr) delete[] Data;
+        Data = nullptr;
+        FileSize = 0;
+        FilePos = 0;
+        ChunkPos = 1;
+        Char = 0;
+        NextChar = 0;
     }
 
     StreamFileReader::~StreamFileReader() noexcept
-- 
2.43.0


From 15f68efda232a6150903523e55b386082666ee38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:07 +0000
Subject: [PATCH 29/33] fix: copies of a request released its value twice

---
 Source/VaultRequest.h   |  6 ++----
 Source/VaultRequest.hpp | 14 +++-----------
 2 files changed, 5 insertions(+), 15 deletions(-)

diff --git a/Source/VaultRequest.h b/Source/VaultRequest.h
index 214e54d..12a7e41 100644
--- a/Source/VaultRequest.h
+++ b/Source/VaultRequest.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <memory>
 #include <functional>
 
 #include "VaultClasses.h"
@@ -24,14 +25,11 @@ namespace mvlt
         /// A variable for storing a logical request function
         std::function<void(Vault* vlt, std::unordered_set<VaultRecord*>& setWithRecords)> LogicalRequestFunction;
 
-        /// A pointer to a function that delete data
-        void (*DeleteFunc)(void*) = nullptr;
-
         /// Request key
         std::string Key;
 
         /// Pointer to Data saved inside Request
-        void* DataPtr = nullptr;
+        std::shared_ptr<void> DataPtr;
 
         /// Variable to store predicat function
         std::function<bool(const VaultRecordRef& ref)> RequestPredicat;
diff --git a/Source/VaultRequest.hpp b/Source/VaultRequest.hpp
index d395539..ea9d124 100644
--- a/Source/VaultRequest.hpp
+++ b/Source/VaultRequest.hpp
@@ -18,7 +18,7 @@ namespace mvlt
             Less<std::string>(\"Key\", \"Value\") or Greater(\"Key\", std::string(\"Value\")). \n\
             This works with the following classes: Less, LessOrEqual, Equal, GreaterOrEqual, Greater.");
 
-        DataPtr = static_cast<void*>(new T(keyValue));
+        DataPtr = std::make_shared<T>(keyValue);
 
         // Set Request func
         DataRequestFunc = [](const std::string& key, Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet, void* beginValue, void* endValue,
@@ -34,11 +34,6 @@ namespace mvlt
             // Throw error
             if (!res.IsOperationSuccess) throw VaultOperationResult(res);
         };
-
-        DeleteFunc = [](void* ptrToDelete)
-        {
-            delete static_cast<T*>(ptrToDelete);
-        };
     }
 
     template <VaultRequestType Type>
@@ -77,7 +72,7 @@ namespace mvlt
                     (request1.RequestType == VaultRequestType::Greater || request1.RequestType == VaultRequestType::GreaterOrEqual) &&
                     (request2.RequestType == VaultRequestType::Less || request1.RequestType == VaultRequestType::LessOrEqual))
                 {
-                    request1.DataRequestFunc(request1.Key, vlt, vaultRecordSet, request1.DataPtr, request2.DataPtr, 
+                    request1.DataRequestFunc(request1.Key, vlt, vaultRecordSet, request1.DataPtr.get(), request2.DataPtr.get(), 
                         (request1.RequestType == VaultRequestType::GreaterOrEqual),
                         (request2.RequestType == VaultRequestType::LessOrEqual), [&](const VaultRecordRef& ref) 
                             {
@@ -121,7 +116,7 @@ namespace mvlt
         case VaultRequestType::Equal:
         case VaultRequestType::GreaterOrEqual:
         case VaultRequestType::Greater:
-            DataRequestFunc(Key, vlt, vaultRecords, DataPtr, nullptr, false, false, RequestPredicat);
+            DataRequestFunc(Key, vlt, vaultRecords, DataPtr.get(), nullptr, false, false, RequestPredicat);
             break;
         case VaultRequestType::Or:
         case VaultRequestType::And:
@@ -134,9 +129,6 @@ namespace mvlt
     VaultRequest<Type>::~VaultRequest() noexcept
     {
         DBG_LOG_ENTER();
-
-        if (DeleteFunc != nullptr && DataPtr != nullptr)
-            DeleteFunc(DataPtr);
     }
 
     template <VaultRequestType LType, VaultRequestType RType>
-- 
2.43.0


From 59b34801a08c509c570c3c028e3f693943152dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:53 +0000
Subject: [PATCH 30/33] fix: a composed request kept references to operands
 which could be destroyed before it

---
 Source/VaultRequest.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/VaultRequest.hpp b/Source/VaultRequest.hpp
index ea9d124..81faa09 100644
--- a/Source/VaultRequest.hpp
+++ b/Source/VaultRequest.hpp
@@ -47,7 +47,7 @@ namespace mvlt
         {
         case VaultRequestType::Or:
             // Set complex request func
-            LogicalRequestFunction = [&](Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet)
+            LogicalRequestFunction = [=](Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet)
             {
                 std::unordered_set<VaultRecord*> req1Result, req2Result;
 
@@ -65,7 +65,7 @@ namespace mvlt
         
         case VaultRequestType::And:
             // Set complex request func
-            LogicalRequestFunction = [&](Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet)
+            LogicalRequestFunction = [=](Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet)
             {
                 // Handle interval situation
                 if (request1.Key == request2.Key && 
-- 
2.43.0


From 0ad81fd15f859ab7fff16008ac646371ee27f9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:24 +0000
Subject: [PATCH 31/33] fix: an and request for one key with values of two
 types read one of them as the other

---
 Source/VaultRequest.h   | 4 ++++
 Source/VaultRequest.hpp | 3 ++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/Source/VaultRequest.h b/Source/VaultRequest.h
index 12a7e41..baca000 100644
--- a/Source/VaultRequest.h
+++ b/Source/VaultRequest.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <memory>
+#include <typeindex>
 #include <functional>
 
 #include "VaultClasses.h"
@@ -25,6 +26,9 @@ namespace mvlt
         /// A variable for storing a logical request function
         std::function<void(Vault* vlt, std::unordered_set<VaultRecord*>& setWithRecords)> LogicalRequestFunction;
 
+        /// Type of the value saved inside Request
+        std::type_index DataType = typeid(void);
+
         /// Request key
         std::string Key;
 
diff --git a/Source/VaultRequest.hpp b/Source/VaultRequest.hpp
index 81faa09..98451d7 100644
--- a/Source/VaultRequest.hpp
+++ b/Source/VaultRequest.hpp
@@ -19,6 +19,7 @@ namespace mvlt
             This works with the following classes: Less, LessOrEqual, Equal, GreaterOrEqual, Greater.");
 
         DataPtr = std::make_shared<T>(keyValue);
+        DataType = typeid(T);
 
         // Set Request func
         DataRequestFunc = [](const std::string& key, Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet, void* beginValue, void* endValue,
@@ -68,7 +69,7 @@ namespace mvlt
             LogicalRequestFunction = [=](Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet)
             {
                 // Handle interval situation
-                if (request1.Key == request2.Key && 
+                if (request1.Key == request2.Key && request1.DataType == request2.DataType &&
                     (request1.RequestType == VaultRequestType::Greater || request1.RequestType == VaultRequestType::GreaterOrEqual) &&
                     (request2.RequestType == VaultRequestType::Less || request1.RequestType == VaultRequestType::LessOrEqual))
                 {
-- 
2.43.0


From c16faf937ecef06f115b238d49b92325225457e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:11 +0000
Subject: [PATCH 32/33] fix: a failed lookup in a record set moved the
 reference it was given to another vault

---
 Source/VaultRecordSet.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/Source/VaultRecordSet.hpp b/Source/VaultRecordSet.hpp
index c1c2173..d044f17 100644
--- a/Source/VaultRecordSet.hpp
+++ b/Source/VaultRecordSet.hpp
@@ -98,7 +98,6 @@ namespace mvlt
             ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
 
             res = Vault::GetRecord(key, keyValue, vaultRecordRef);
-            vaultRecordRef.Vlt = ParentVault;
         }
         else
         {
-- 
2.43.0


From f8288a0594a304fe7d5c3b5eed74ddf042812487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:30 +0000
Subject: [PATCH 33/33] fix: names of keys were written to json without
 escaping

---
 Source/Vault.cpp          | 2 +-
 Source/VaultRecordRef.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 7cc166d..9234b04 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -757,7 +757,7 @@ namespace mvlt
                 DataSaver dataSaver;
                 record->GetDataSaver(key, dataSaver);
 
-                res << "\"" << key << "\":";
+                res << "\"" << EscapeJsonString(key) << "\":";
 
                 if (isFormat) res << " ";
                 res << mvlt::ToJson(dataSaver);
diff --git a/Source/VaultRecordRef.cpp b/Source/VaultRecordRef.cpp
index b4f4318..5516495 100644
--- a/Source/VaultRecordRef.cpp
+++ b/Source/VaultRecordRef.cpp
@@ -325,7 +325,7 @@ namespace mvlt
                     DataSaver dataSaver;
                     VaultRecordPtr->GetDataSaver(key, dataSaver);
 
-                    res += "\"" + key + "\":";
+                    res += "\"" + EscapeJsonString(key) + "\":";
 
                     if (isFormat) res += " ";
                     res += mvlt::ToJson(dataSaver);
-- 
2.43.0

