From 208995f5067679091c78069d3c42c5821e5c521e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 01/44] fix: updating or erasing one record removed all records
 sharing its value from the lookup structures

---
 Source/Vault.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 5dbedd0..a302157 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -78,7 +78,7 @@ namespace mvlt
             // Find required data record
             if ((*pairIt).second == dataRecord)
             {
-                TtoVaultRecordHashMap->Erase((*pairIt).first);
+                TtoVaultRecordHashMap->Erase(pairIt);
                 break;
             }
         }
@@ -99,7 +99,7 @@ namespace mvlt
             // Find required data record
             if ((*pairIt).second == dataRecord)
             {
-                TtoVaultRecordMap->Erase((*pairIt).first);
+                TtoVaultRecordMap->Erase(pairIt);
                 break;
             }
         }
@@ -493,7 +493,7 @@ namespace mvlt
                 {
                     if ((*pairIt).second == record)
                     {
-                        TtoVaultRecordMap->Erase((*pairIt).first);
+                        TtoVaultRecordMap->Erase(pairIt);
                         break;
                     }
                 }
-- 
2.43.0


From f795deb298699e150b83e1bc1a8d8a75f650aa31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 02/44] fix: a unique key could never be updated because the
 old value was looked up instead of the new one

---
 Source/Vault.hpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index a302157..d527dd8 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -63,13 +63,17 @@ namespace mvlt
         // Remove oldData from TtoVaultRecordHashMap from VaultHashMapStructure
         auto FirstAndLastIteratorsWithKeyOnHashMap = TtoVaultRecordHashMap->EqualRange(oldData);
 
-        // Check if it is unique key and try to set duplicate data
-        if (!TtoVaultRecordHashMap->IsMultiContainer() && FirstAndLastIteratorsWithKeyOnHashMap.first != TtoVaultRecordHashMap->End())
+        // Check if it is unique key and try to set data that another record already has
+        if (!TtoVaultRecordHashMap->IsMultiContainer())
         {
-            res.IsOperationSuccess = false;
-            res.ResultCode = VaultOperationResultCode::UniqueKeyValueAlredyInSet;
+            auto sameDataIt = TtoVaultRecordHashMap->Find(data);
+            if (sameDataIt != TtoVaultRecordHashMap->End() && (*sameDataIt).second != dataRecord)
+            {
+                res.IsOperationSuccess = false;
+                res.ResultCode = VaultOperationResultCode::UniqueKeyValueAlredyInSet;
 
-            return res;
+                return res;
+            }
         }
 
         // Iterate over all data records with oldData key
-- 
2.43.0


From 3df288738b10e2191d0385ee418ae1680454610d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 03/44] fix: a refused AddUniqueKey on a non-empty vault left a
 half-added key behind

---
 Source/Vault.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index d527dd8..3068d05 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -348,6 +348,14 @@ namespace mvlt
             return res;
         }
 
+        // If no lamda provided and vault not empty
+        if (isUniqueKey && isUniqueKeyWithoutLambda && !RecordsSet.empty())
+        {
+            res.IsOperationSuccess = false;
+            res.ResultCode = VaultOperationResultCode::TryToAddUniqueKeyInNonEmptyVaultWithoutLambda;
+            return res;
+        }
+
         // Create new hash map to store data with template T key
         UnorderedMap<T, VaultRecord*>* TtoVaultRecordHashMap = new UnorderedMap<T, VaultRecord*>(!isUniqueKey);
         VaultHashMapStructure.SetData(key, TtoVaultRecordHashMap, [](const void* ptr)
@@ -367,14 +375,6 @@ namespace mvlt
         // Add new data to record set
         if (isUniqueKey)
         {
-            // If no lamda provided and vault not empty
-            if (isUniqueKeyWithoutLambda && !RecordsSet.empty())
-            {
-                res.IsOperationSuccess = false;
-                res.ResultCode = VaultOperationResultCode::TryToAddUniqueKeyInNonEmptyVaultWithoutLambda;
-                return res;
-            }
-
             std::size_t counter = 0;
             std::vector<T> cachedData;
             bool isCorrectKey = true;
-- 
2.43.0


From 79f38627d7ce7d452d9835a7e6b21f460cae171a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 04/44] fix: UpdateKey did not reach record sets and copies of
 the vault

---
 Source/Vault.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 3068d05..b35edc9 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -620,6 +620,20 @@ namespace mvlt
         // Change data in template
         RecordTemplate.SetData(key, defaultKeyValue);
 
+        // Change default value for future key copies
+        VaultKeyCopiers[key] = [=](Vault* vaultRecordSet)
+        {
+            vaultRecordSet->AddKey(key, defaultKeyValue);
+        };
+
+        if (VaultDerivedClass == VaultDerivedClasses::VaultBase)
+        {
+            for (VaultRecordSet* set : RecordSetsSet)
+                set->UpdateKey(key, defaultKeyValue);
+        }
+
+        res.IsOperationSuccess = true;
+
         res.SavedType = res.RequestedType;
         res.ResultCode = VaultOperationResultCode::Success;
         return res;
-- 
2.43.0


From de789565c77e9d17d0804795e78b81fe0e4d5d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 05/44] fix: copies of a vault did not enforce its unique keys

---
 Source/Vault.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index b35edc9..42c1934 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -522,7 +522,10 @@ namespace mvlt
         
         VaultKeyCopiers.emplace(key, [=](Vault* vaultRecordSet)
         {
-            vaultRecordSet->AddKey(key, defaultKeyValue);
+            if (isUniqueKey)
+                vaultRecordSet->AddUniqueKey<T>(key);
+            else
+                vaultRecordSet->AddKey(key, defaultKeyValue);
         });
 
         if (VaultDerivedClass == VaultDerivedClasses::VaultBase)
-- 
2.43.0


From 9e66c2c2835316e26efa78fcda41e174a678a40b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:43 +0000
Subject: [PATCH 06/44] fix: AddUniqueKey regenerated the values for record
 sets instead of using the values of the records

---
 Source/Vault.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 42c1934..8212790 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -382,7 +382,14 @@ namespace mvlt
             // Cycle for check uniqueKeyFunction validity
             for (VaultRecord* recordsSetIt : RecordsSet)
             {
-                T value = uniqueKeyFunction(counter, VaultRecordRef(recordsSetIt, this));
+                T value{};
+
+                // Record set must use the values already generated for the records of its parent Vault
+                if (VaultDerivedClass == VaultDerivedClasses::VaultBase)
+                    value = uniqueKeyFunction(counter, VaultRecordRef(recordsSetIt, this));
+                else
+                    recordsSetIt->GetData(key, value);
+
                 ++counter;
 
                 auto emplacePair = TtoVaultRecordHashMap->Emplace(value, recordsSetIt);
-- 
2.43.0


From cadd9e155fbd133067b4875b2f9153e32c521cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 07/44] fix: references obtained by sorting or requesting a
 record set pointed to the set instead of its parent vault

---
 Source/Vault.cpp          | 14 ++++++++++++--
 Source/Vault.h            |  7 +++++++
 Source/Vault.hpp          | 10 +++++-----
 Source/VaultRecordSet.hpp |  3 ---
 4 files changed, 24 insertions(+), 10 deletions(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 8ee1abb..f330f97 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -179,6 +179,16 @@ namespace mvlt
         return true;
     }
 
+    Vault* Vault::GetRecordsVault() const noexcept
+    {
+        DBG_LOG_ENTER();
+
+        if (VaultDerivedClass == VaultDerivedClasses::VaultRecordSetDerived)
+            return static_cast<const VaultRecordSet*>(this)->ParentVault;
+
+        return const_cast<Vault*>(this);
+    }
+
     Vault::Vault() noexcept 
     {
         DBG_LOG_ENTER();
@@ -668,7 +678,7 @@ namespace mvlt
                     res.emplace_back(vaultRecordRef);
                     ++counter;
                     return true;
-                }, const_cast<Vault*>(this), isReverse);
+                }, GetRecordsVault(), isReverse);
         }
 
         return res;
@@ -694,7 +704,7 @@ namespace mvlt
 
                     ++counter;
                     return true;
-                }, const_cast<Vault*>(this), isReverse);
+                }, GetRecordsVault(), isReverse);
         }
     }
 
diff --git a/Source/Vault.h b/Source/Vault.h
index ffa6a34..2ac270e 100644
--- a/Source/Vault.h
+++ b/Source/Vault.h
@@ -219,6 +219,13 @@ namespace mvlt
             const char& separator, const bool& isLoadKeys, const std::vector<std::string>& userKeys,
             const std::function<void(const std::vector<std::string>& keys, std::vector<std::string>& values)>& recordHandler) noexcept;
 
+        /**
+            \brief A method for getting the Vault in which the records are stored
+
+            \return a pointer to this, or to the parent Vault if it is called on VaultRecordSet
+        */
+        Vault* GetRecordsVault() const noexcept;
+
     public:
         /// Making the VaultRecordRef class friendly so that it has access to the internal members of the Vault class
         friend VaultRecordRef;
diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 8212790..6b45da7 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -182,7 +182,7 @@ namespace mvlt
                     // Check if it is not default predicate
                     if (&requestPredicat != &DefaultRequestPredicat)
                     {
-                        if (requestPredicat(VaultRecordRef((*equalRangeIt).second, const_cast<Vault*>(this))))
+                        if (requestPredicat(VaultRecordRef((*equalRangeIt).second, GetRecordsVault())))
                             vaultRecords.emplace((*equalRangeIt).second);
                     }
                     else
@@ -255,7 +255,7 @@ namespace mvlt
                 // Check if it is not default predicate
                 if (&requestPredicat != &DefaultRequestPredicat)
                 {
-                    if (requestPredicat(VaultRecordRef((*TtoVaultRecordMapIt).second, const_cast<Vault*>(this))))
+                    if (requestPredicat(VaultRecordRef((*TtoVaultRecordMapIt).second, GetRecordsVault())))
                         vaultRecords.emplace((*TtoVaultRecordMapIt).second);
                 }
                 else
@@ -739,13 +739,13 @@ namespace mvlt
         auto TtoVaultRecordIt = TtoVaultRecordHashMap->Find(keyValue);
         if (TtoVaultRecordIt != TtoVaultRecordHashMap->End())
         {
-            vaultRecordRef.SetRecord((*TtoVaultRecordIt).second, const_cast<Vault*>(this));
+            vaultRecordRef.SetRecord((*TtoVaultRecordIt).second, GetRecordsVault());
             res.IsOperationSuccess = true;
             res.ResultCode = VaultOperationResultCode::Success;
         }
         else
         {
-            vaultRecordRef.SetRecord(nullptr, const_cast<Vault*>(this));
+            vaultRecordRef.SetRecord(nullptr, GetRecordsVault());
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::WrongValue;
         }
@@ -802,7 +802,7 @@ namespace mvlt
             for (auto equalRangeIt = equalRange.first; equalRangeIt != equalRange.second; ++equalRangeIt)
             {
                 ++counter;
-                recordsRefs.emplace_back(VaultRecordRef((*equalRangeIt).second, const_cast<Vault*>(this)));
+                recordsRefs.emplace_back(VaultRecordRef((*equalRangeIt).second, GetRecordsVault()));
                 if (counter >= amountOfRecords) break;
             }
 
diff --git a/Source/VaultRecordSet.hpp b/Source/VaultRecordSet.hpp
index 36067e3..64aee33 100644
--- a/Source/VaultRecordSet.hpp
+++ b/Source/VaultRecordSet.hpp
@@ -98,7 +98,6 @@ namespace mvlt
             ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
 
             res = Vault::GetRecord(key, keyValue, vaultRecordRef);
-            vaultRecordRef.Vlt = ParentVault;
         }
         else
         {
@@ -123,8 +122,6 @@ namespace mvlt
             ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
 
             res = Vault::GetRecords(key, keyValue, recordsRefs, amountOfRecords);
-            for (VaultRecordRef& ref : recordsRefs)
-                ref.Vlt = ParentVault;
         }
         else
         {
-- 
2.43.0


From 4061a84b4f33727fd20880a22ad7dacfd4ca5669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 08/44] fix: references outliving their vault locked the mutex
 of the destroyed vault

---
 Source/VaultRecordRef.cpp | 21 +++++++++++++++++++--
 Source/VaultRecordRef.hpp |  6 ++++--
 2 files changed, 23 insertions(+), 4 deletions(-)

diff --git a/Source/VaultRecordRef.cpp b/Source/VaultRecordRef.cpp
index 7f5f6e3..cdce188 100644
--- a/Source/VaultRecordRef.cpp
+++ b/Source/VaultRecordRef.cpp
@@ -154,6 +154,21 @@ namespace mvlt
 
         VaultOperationResult res;
 
+        // Record that is not valid may outlive its Vault, so check it before locking the Vault mutex
+        if (!IsValid())
+        {
+            res.IsOperationSuccess = false;
+            res.ResultCode = VaultOperationResultCode::DataRecordNotValid;
+
+            if (!params.empty())
+            {
+                res.Key = params.front().first;
+                res.RequestedType = params.front().second.GetDataType();
+            }
+
+            return res;
+        }
+
         WriteLock<RecursiveReadWriteMutex> writeLock(Vlt->RecursiveReadWriteMtx);
 
         // Copy data from function parametrs
@@ -175,7 +190,8 @@ namespace mvlt
         res.Key = key;
         res.RequestedType = typeid(std::string);
 
-        if (VaultRecordPtr == nullptr)
+        // Record that is not valid may outlive its Vault, so check it before locking the Vault mutex
+        if (!IsValid())
         {
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::DataRecordNotValid;
@@ -225,7 +241,8 @@ namespace mvlt
 
         bool res = false;
 
-        if (Vlt != nullptr) res = Vlt->IsKeyExist(key);
+        // Record that is not valid may outlive its Vault
+        if (IsValid()) res = Vlt->IsKeyExist(key);
 
         return res;
     }
diff --git a/Source/VaultRecordRef.hpp b/Source/VaultRecordRef.hpp
index b3ed023..a52b7e8 100644
--- a/Source/VaultRecordRef.hpp
+++ b/Source/VaultRecordRef.hpp
@@ -19,7 +19,8 @@ namespace mvlt
         res.Key = key;
         res.RequestedType = typeid(T);
 
-        if (VaultRecordPtr == nullptr)
+        // Record that is not valid may outlive its Vault, so check it before locking the Vault mutex
+        if (!IsValid())
         {
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::DataRecordNotValid;
@@ -56,7 +57,8 @@ namespace mvlt
         res.RequestedType = typeid(T);
 
 
-        if (VaultRecordPtr == nullptr)
+        // Record that is not valid may outlive its Vault, so check it before locking the Vault mutex
+        if (!IsValid())
         {
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::DataRecordNotValid;
-- 
2.43.0


From 0dc1f41106180a7dafe271da6510b5dde1fd2550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:59 +0000
Subject: [PATCH 09/44] fix: serialising a reference locked its record before
 the vault and could deadlock with a writer

---
 Source/VaultRecordRef.cpp | 39 +++++++++++++++------------------------
 1 file changed, 15 insertions(+), 24 deletions(-)

diff --git a/Source/VaultRecordRef.cpp b/Source/VaultRecordRef.cpp
index cdce188..3911614 100644
--- a/Source/VaultRecordRef.cpp
+++ b/Source/VaultRecordRef.cpp
@@ -267,15 +267,14 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
-        if (VaultRecordPtr != nullptr)
+        // Record that is not valid may outlive its Vault, so check it before locking the Vault mutex
+        if (IsValid())
         {
-            VaultRecordPtr->VaultRecordMutex.lock();
+            Vlt->RecursiveReadWriteMtx.ReadLock();
 
-            // Check if Vault still accessable
+            // Check if record was not erased while the Vault was being locked
             if (VaultRecordPtr->GetIsValid())
             {
-                Vlt->RecursiveReadWriteMtx.ReadLock();
-
                 std::cout << "Vault record " << VaultRecordPtr << ":" << "\n";
 
                 for (const auto& keyPair : Vlt->VaultHashMapStructure)
@@ -285,12 +284,10 @@ namespace mvlt
 
                     std::cout << "\t" << keyPair.first << " = " << dataSaver.Str() << "\n";
                 }
-
-                Vlt->RecursiveReadWriteMtx.ReadUnlock();
             }
             else std::cout << "VaultRecordRef not valid!" << "\n";
 
-            VaultRecordPtr->VaultRecordMutex.unlock();
+            Vlt->RecursiveReadWriteMtx.ReadUnlock();
         }
         else std::cout << "VaultRecordRef not valid!" << "\n";
     }
@@ -314,15 +311,14 @@ namespace mvlt
         std::size_t keyCounter = 0;
         std::string res = "{";
 
-        if (VaultRecordPtr != nullptr)
+        // Record that is not valid may outlive its Vault, so check it before locking the Vault mutex
+        if (IsValid())
         {
-            VaultRecordPtr->VaultRecordMutex.lock();
+            Vlt->RecursiveReadWriteMtx.ReadLock();
 
-            // Check if Vault still accessable
+            // Check if record was not erased while the Vault was being locked
             if (VaultRecordPtr->GetIsValid())
             {
-                Vlt->RecursiveReadWriteMtx.ReadLock();
-
                 for (const std::string& key : Vlt->KeysOrder)
                 {
                     if (isFormat) res += "\n" + tab;
@@ -338,11 +334,9 @@ namespace mvlt
                     ++keyCounter;
                     if (keyCounter != Vlt->KeysOrder.size()) res += ",";
                 }
-
-                Vlt->RecursiveReadWriteMtx.ReadUnlock();
             }
 
-            VaultRecordPtr->VaultRecordMutex.unlock();
+            Vlt->RecursiveReadWriteMtx.ReadUnlock();
         }
 
         if (isFormat) res += "\n";
@@ -357,15 +351,14 @@ namespace mvlt
 
         std::vector<std::pair<std::string, std::string>> res;
 
-        if (VaultRecordPtr != nullptr)
+        // Record that is not valid may outlive its Vault, so check it before locking the Vault mutex
+        if (IsValid())
         {
-            VaultRecordPtr->VaultRecordMutex.lock();
+            Vlt->RecursiveReadWriteMtx.ReadLock();
 
-            // Check if Vault still accessable
+            // Check if record was not erased while the Vault was being locked
             if (VaultRecordPtr->GetIsValid())
             {
-                Vlt->RecursiveReadWriteMtx.ReadLock();
-
                 for (const std::string& key : Vlt->KeysOrder)
                 {
                     DataSaver dataSaver;
@@ -373,11 +366,9 @@ namespace mvlt
 
                     res.emplace_back(std::pair<std::string, std::string>(key, dataSaver.Str()));
                 }
-
-                Vlt->RecursiveReadWriteMtx.ReadUnlock();
             }
 
-            VaultRecordPtr->VaultRecordMutex.unlock();
+            Vlt->RecursiveReadWriteMtx.ReadUnlock();
         }
 
         return res;
-- 
2.43.0


From f4d2f6a46721879f276851f3958a4001b3434ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 10/44] fix: copying a request freed its value twice

---
 Source/VaultRequest.h   | 10 ++++------
 Source/VaultRequest.hpp | 20 +++-----------------
 2 files changed, 7 insertions(+), 23 deletions(-)

diff --git a/Source/VaultRequest.h b/Source/VaultRequest.h
index 214e54d..fe67fcf 100644
--- a/Source/VaultRequest.h
+++ b/Source/VaultRequest.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <memory>
 #include <functional>
 
 #include "VaultClasses.h"
@@ -24,14 +25,11 @@ namespace mvlt
         /// A variable for storing a logical request function
         std::function<void(Vault* vlt, std::unordered_set<VaultRecord*>& setWithRecords)> LogicalRequestFunction;
 
-        /// A pointer to a function that delete data
-        void (*DeleteFunc)(void*) = nullptr;
-
         /// Request key
         std::string Key;
 
-        /// Pointer to Data saved inside Request
-        void* DataPtr = nullptr;
+        /// Pointer to Data saved inside Request. It is shared between all copies of the request
+        std::shared_ptr<void> DataPtr;
 
         /// Variable to store predicat function
         std::function<bool(const VaultRecordRef& ref)> RequestPredicat;
@@ -105,7 +103,7 @@ namespace mvlt
         void Request(Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecords) const;
 
         /// \brief Default destructor
-        ~VaultRequest() noexcept;
+        ~VaultRequest() noexcept = default;
 
         /// \brief Friend operator&&
         template <VaultRequestType TType>
diff --git a/Source/VaultRequest.hpp b/Source/VaultRequest.hpp
index d395539..eea8054 100644
--- a/Source/VaultRequest.hpp
+++ b/Source/VaultRequest.hpp
@@ -18,7 +18,7 @@ namespace mvlt
             Less<std::string>(\"Key\", \"Value\") or Greater(\"Key\", std::string(\"Value\")). \n\
             This works with the following classes: Less, LessOrEqual, Equal, GreaterOrEqual, Greater.");
 
-        DataPtr = static_cast<void*>(new T(keyValue));
+        DataPtr = std::make_shared<T>(keyValue);
 
         // Set Request func
         DataRequestFunc = [](const std::string& key, Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet, void* beginValue, void* endValue,
@@ -34,11 +34,6 @@ namespace mvlt
             // Throw error
             if (!res.IsOperationSuccess) throw VaultOperationResult(res);
         };
-
-        DeleteFunc = [](void* ptrToDelete)
-        {
-            delete static_cast<T*>(ptrToDelete);
-        };
     }
 
     template <VaultRequestType Type>
@@ -77,7 +72,7 @@ namespace mvlt
                     (request1.RequestType == VaultRequestType::Greater || request1.RequestType == VaultRequestType::GreaterOrEqual) &&
                     (request2.RequestType == VaultRequestType::Less || request1.RequestType == VaultRequestType::LessOrEqual))
                 {
-                    request1.DataRequestFunc(request1.Key, vlt, vaultRecordSet, request1.DataPtr, request2.DataPtr, 
+                    request1.DataRequestFunc(request1.Key, vlt, vaultRecordSet, request1.DataPtr.get(), request2.DataPtr.get(), 
                         (request1.RequestType == VaultRequestType::GreaterOrEqual),
                         (request2.RequestType == VaultRequestType::LessOrEqual), [&](const VaultRecordRef& ref) 
                             {
@@ -121,7 +116,7 @@ namespace mvlt
         case VaultRequestType::Equal:
         case VaultRequestType::GreaterOrEqual:
         case VaultRequestType::Greater:
-            DataRequestFunc(Key, vlt, vaultRecords, DataPtr, nullptr, false, false, RequestPredicat);
+            DataRequestFunc(Key, vlt, vaultRecords, DataPtr.get(), nullptr, false, false, RequestPredicat);
             break;
         case VaultRequestType::Or:
         case VaultRequestType::And:
@@ -130,15 +125,6 @@ namespace mvlt
         }
     }
 
-    template <VaultRequestType Type>
-    VaultRequest<Type>::~VaultRequest() noexcept
-    {
-        DBG_LOG_ENTER();
-
-        if (DeleteFunc != nullptr && DataPtr != nullptr)
-            DeleteFunc(DataPtr);
-    }
-
     template <VaultRequestType LType, VaultRequestType RType>
     VaultRequest<VaultRequestType::And> operator&& (const VaultRequest<LType>& lhs, const VaultRequest<RType>& rhs) noexcept
     {
-- 
2.43.0


From afea69ebfad707d6b2a03e6b4189a11cc9ecc1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 11/44] fix: Or and And requests kept references to temporary
 requests

---
 Source/VaultRequest.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/VaultRequest.hpp b/Source/VaultRequest.hpp
index eea8054..d4dc45e 100644
--- a/Source/VaultRequest.hpp
+++ b/Source/VaultRequest.hpp
@@ -47,7 +47,7 @@ namespace mvlt
         {
         case VaultRequestType::Or:
             // Set complex request func
-            LogicalRequestFunction = [&](Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet)
+            LogicalRequestFunction = [=](Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet)
             {
                 std::unordered_set<VaultRecord*> req1Result, req2Result;
 
@@ -65,7 +65,7 @@ namespace mvlt
         
         case VaultRequestType::And:
             // Set complex request func
-            LogicalRequestFunction = [&](Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet)
+            LogicalRequestFunction = [=](Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet)
             {
                 // Handle interval situation
                 if (request1.Key == request2.Key && 
-- 
2.43.0


From 6d292eb1af293b14b7d190d4e44f0d5235cc2f0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 12/44] fix: And of two requests with different value types
 read the second value as the type of the first

---
 Source/VaultRequest.h   | 4 ++++
 Source/VaultRequest.hpp | 5 +++--
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/Source/VaultRequest.h b/Source/VaultRequest.h
index fe67fcf..0d31469 100644
--- a/Source/VaultRequest.h
+++ b/Source/VaultRequest.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <memory>
+#include <typeindex>
 #include <functional>
 
 #include "VaultClasses.h"
@@ -28,6 +29,9 @@ namespace mvlt
         /// Request key
         std::string Key;
 
+        /// Type of data saved inside Request
+        std::type_index DataType = typeid(void);
+
         /// Pointer to Data saved inside Request. It is shared between all copies of the request
         std::shared_ptr<void> DataPtr;
 
diff --git a/Source/VaultRequest.hpp b/Source/VaultRequest.hpp
index d4dc45e..69b5ffb 100644
--- a/Source/VaultRequest.hpp
+++ b/Source/VaultRequest.hpp
@@ -18,6 +18,7 @@ namespace mvlt
             Less<std::string>(\"Key\", \"Value\") or Greater(\"Key\", std::string(\"Value\")). \n\
             This works with the following classes: Less, LessOrEqual, Equal, GreaterOrEqual, Greater.");
 
+        DataType = typeid(T);
         DataPtr = std::make_shared<T>(keyValue);
 
         // Set Request func
@@ -68,9 +69,9 @@ namespace mvlt
             LogicalRequestFunction = [=](Vault* vlt, std::unordered_set<VaultRecord*>& vaultRecordSet)
             {
                 // Handle interval situation
-                if (request1.Key == request2.Key && 
+                if (request1.Key == request2.Key && request1.DataType == request2.DataType &&
                     (request1.RequestType == VaultRequestType::Greater || request1.RequestType == VaultRequestType::GreaterOrEqual) &&
-                    (request2.RequestType == VaultRequestType::Less || request1.RequestType == VaultRequestType::LessOrEqual))
+                    (request2.RequestType == VaultRequestType::Less || request2.RequestType == VaultRequestType::LessOrEqual))
                 {
                     request1.DataRequestFunc(request1.Key, vlt, vaultRecordSet, request1.DataPtr.get(), request2.DataPtr.get(), 
                         (request1.RequestType == VaultRequestType::GreaterOrEqual),
-- 
2.43.0


From d4c6e98ab6a5943783b6093d4b29732cfe78b01a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 13/44] fix: records rejected by the predicate of a request
 were counted in its record limit

---
 Source/Vault.hpp | 20 +++++++++-----------
 1 file changed, 9 insertions(+), 11 deletions(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 6b45da7..00b97a2 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -179,15 +179,14 @@ namespace mvlt
                     // Check added records count
                     if (counter >= amountOfRecords) break;
 
-                    // Check if it is not default predicate
+                    // Check if it is not default predicate. Only added records are counted
                     if (&requestPredicat != &DefaultRequestPredicat)
                     {
-                        if (requestPredicat(VaultRecordRef((*equalRangeIt).second, GetRecordsVault())))
-                            vaultRecords.emplace((*equalRangeIt).second);
+                        if (!requestPredicat(VaultRecordRef((*equalRangeIt).second, GetRecordsVault())))
+                            continue;
                     }
-                    else
-                        vaultRecords.emplace((*equalRangeIt).second);
-                    
+
+                    vaultRecords.emplace((*equalRangeIt).second);
                     ++counter;
                 }
             }
@@ -252,15 +251,14 @@ namespace mvlt
             {
                 if (counter >= amountOfRecords) break;
 
-                // Check if it is not default predicate
+                // Check if it is not default predicate. Only added records are counted
                 if (&requestPredicat != &DefaultRequestPredicat)
                 {
-                    if (requestPredicat(VaultRecordRef((*TtoVaultRecordMapIt).second, GetRecordsVault())))
-                        vaultRecords.emplace((*TtoVaultRecordMapIt).second);
+                    if (!requestPredicat(VaultRecordRef((*TtoVaultRecordMapIt).second, GetRecordsVault())))
+                        continue;
                 }
-                else
-                    vaultRecords.emplace((*TtoVaultRecordMapIt).second);
 
+                vaultRecords.emplace((*TtoVaultRecordMapIt).second);
                 ++counter;
             }
         }
-- 
2.43.0


From dc9fdf5016dbd2a47720c7080d8f8cdefa7fa3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:38 +0000
Subject: [PATCH 14/44] fix: GetRecords and EraseRecords handled one record
 when asked for none

---
 Source/Vault.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 00b97a2..e38a89f 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -799,9 +799,9 @@ namespace mvlt
             std::size_t counter = 0;
             for (auto equalRangeIt = equalRange.first; equalRangeIt != equalRange.second; ++equalRangeIt)
             {
+                if (counter >= amountOfRecords) break;
                 ++counter;
                 recordsRefs.emplace_back(VaultRecordRef((*equalRangeIt).second, GetRecordsVault()));
-                if (counter >= amountOfRecords) break;
             }
 
             res.IsOperationSuccess = true;
@@ -1079,6 +1079,8 @@ namespace mvlt
             std::size_t counter = 0;
             for (auto equalRangeIt = equalRange.first; equalRangeIt != equalRange.second;)
             {
+                if (counter >= amountOfRecords) break;
+
                 // Save next iterator
                 auto nextIt = equalRangeIt;
                 ++nextIt;
@@ -1099,8 +1101,6 @@ namespace mvlt
                     tmpRec->Invalidate();
                 }
                 
-                if (counter >= amountOfRecords) break;
-                
                 equalRangeIt = nextIt;
             }
         }
-- 
2.43.0


From c026de751069605f70419ecbbd9e53e4a057df17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:10 +0000
Subject: [PATCH 15/44] fix: records added to a set by Join or Intersection did
 not follow changes of the vault

---
 Source/VaultRecordSet.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index af78276..1f75c9c 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -425,6 +425,8 @@ namespace mvlt
 
                     for (auto& adder : VaultRecordAdders)
                         adder.second(record);
+
+                    record->AddToDependentSets(this);
                 }
             }
         }
@@ -674,6 +676,8 @@ namespace mvlt
 
                         for (auto& adder : res.VaultRecordAdders)
                             adder.second(record);
+
+                        record->AddToDependentSets(&res);
                     }
                 }
             }
@@ -689,6 +693,8 @@ namespace mvlt
 
                         for (auto& adder : res.VaultRecordAdders)
                             adder.second(record);
+
+                        record->AddToDependentSets(&res);
                     }
                 }
             }
-- 
2.43.0


From 07bbd1297d07abe1f7e4da669138374d7331b46e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:23 +0000
Subject: [PATCH 16/44] fix: records removed from a set kept pointing to it and
 later changed or touched the set, even after its destruction

---
 Source/Vault.cpp       |  2 ++
 Source/Vault.hpp       |  4 ++++
 Source/VaultRecord.cpp | 10 +++++++---
 3 files changed, 13 insertions(+), 3 deletions(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index f330f97..4646e01 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -32,6 +32,8 @@ namespace mvlt
             recordToErase->RemoveFromDependentSets();
             recordToErase->Invalidate();
         }
+        else
+            recordToErase->EraseDependentSet(static_cast<VaultRecordSet*>(this));
 
         if (wasDeleted != nullptr) *wasDeleted = true;
         return dataIt;
diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index e38a89f..e7aae36 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -1017,6 +1017,8 @@ namespace mvlt
                 tmpRec->RemoveFromDependentSets();
                 tmpRec->Invalidate();
             }
+            else
+                tmpRec->EraseDependentSet(static_cast<VaultRecordSet*>(this));
 
             res.IsOperationSuccess = true;
             res.ResultCode = VaultOperationResultCode::Success;
@@ -1100,6 +1102,8 @@ namespace mvlt
                     tmpRec->RemoveFromDependentSets();
                     tmpRec->Invalidate();
                 }
+                else
+                    tmpRec->EraseDependentSet(static_cast<VaultRecordSet*>(this));
                 
                 equalRangeIt = nextIt;
             }
diff --git a/Source/VaultRecord.cpp b/Source/VaultRecord.cpp
index 72b65cf..a0f274c 100644
--- a/Source/VaultRecord.cpp
+++ b/Source/VaultRecord.cpp
@@ -114,11 +114,15 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
-        VaultRecordMutex.lock();
-        for (VaultRecordSet* set : dependentVaultRecordSets)
-            set->RemoveRecord(this, nullptr);
+        std::unordered_set<VaultRecordSet*> sets;
 
+        // Sets erase themselves from dependentVaultRecordSets while the record is removed from them
+        VaultRecordMutex.lock();
+        sets.swap(dependentVaultRecordSets);
         VaultRecordMutex.unlock();
+
+        for (VaultRecordSet* set : sets)
+            set->RemoveRecord(this, nullptr);
     }
 
     void VaultRecord::AddToDependentSets(VaultRecordSet* vaultRecordSet) noexcept
-- 
2.43.0


From 1f1869ce89ed5098c2be381fc8903fb22b45cf32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:42 +0000
Subject: [PATCH 17/44] fix: record sets and references of a moved vault kept
 pointing to the moved-from vault

---
 Source/Vault.cpp          | 18 ++++++++++++++++++
 Source/VaultRecord.h      |  3 +++
 Source/VaultRecordRef.cpp | 37 +++++++++++++++----------------------
 Source/VaultRecordRef.h   |  3 ---
 Source/VaultRecordRef.hpp |  8 ++++----
 Source/VaultRecordSet.cpp |  2 +-
 6 files changed, 41 insertions(+), 30 deletions(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 4646e01..f6fbbec 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -70,6 +70,7 @@ namespace mvlt
 
             // Record to set to it data from file and store in Vault
             VaultRecord* newRecord = new VaultRecord(RecordTemplate);
+            newRecord->ParentVault = this;
 
             bool isCorrectRecordInFile = false;
 
@@ -220,6 +221,7 @@ namespace mvlt
         {
             // Allocate space to new record and copy data to it
             VaultRecord* newRecord = new VaultRecord(*recordPtr);
+            newRecord->ParentVault = this;
             
             // Add new record to set
             RecordsSet.emplace(newRecord);
@@ -257,6 +259,7 @@ namespace mvlt
             {
                 // Allocate space to new record and copy data to it
                 VaultRecord* newRecord = new VaultRecord(*recordPtr);
+                newRecord->ParentVault = this;
                 
                 // Add new record to set
                 RecordsSet.emplace(newRecord);
@@ -292,6 +295,13 @@ namespace mvlt
         InvalidFileRecords = std::move(other.InvalidFileRecords);
         RecordsSet = std::move(other.RecordsSet);
         RecordSetsSet = std::move(other.RecordSetsSet);
+
+        // Moved records and record sets now belong to this Vault
+        for (VaultRecord* record : RecordsSet)
+            record->ParentVault = this;
+
+        for (VaultRecordSet* set : RecordSetsSet)
+            set->ParentVault = this;
     }
 
     Vault& Vault::operator=(Vault&& other) noexcept
@@ -320,6 +330,13 @@ namespace mvlt
             InvalidFileRecords = std::move(other.InvalidFileRecords);
             RecordsSet = std::move(other.RecordsSet);
             RecordSetsSet = std::move(other.RecordSetsSet);
+
+            // Moved records and record sets now belong to this Vault
+            for (VaultRecord* record : RecordsSet)
+                record->ParentVault = this;
+
+            for (VaultRecordSet* set : RecordSetsSet)
+                set->ParentVault = this;
         }
 
         return *this;
@@ -459,6 +476,7 @@ namespace mvlt
 
         // Create new record
         VaultRecord* newRecord = new VaultRecord(RecordTemplate);
+        newRecord->ParentVault = this;
 
         for (const auto& paramsIt : params)
         {
diff --git a/Source/VaultRecord.h b/Source/VaultRecord.h
index 09a4841..7108bd3 100644
--- a/Source/VaultRecord.h
+++ b/Source/VaultRecord.h
@@ -26,6 +26,9 @@ namespace mvlt
         // Mutex for thread safety
         mutable std::recursive_mutex VaultRecordMutex;
 
+        // Vault that owns the record
+        Vault* ParentVault = nullptr;
+
         // Set with all dependent VaultRecordSets
         std::unordered_set<VaultRecordSet*> dependentVaultRecordSets;
 
diff --git a/Source/VaultRecordRef.cpp b/Source/VaultRecordRef.cpp
index 3911614..fb660ce 100644
--- a/Source/VaultRecordRef.cpp
+++ b/Source/VaultRecordRef.cpp
@@ -14,7 +14,6 @@ namespace mvlt
         if (VaultRecordPtr != nullptr) VaultRecordPtr->RemoveRef();
 
         VaultRecordPtr = vaultRecord;
-        Vlt = vlt;
 
         vlt->RecursiveReadWriteMtx.ReadUnlock();
     }
@@ -57,12 +56,10 @@ namespace mvlt
 
                 other.VaultRecordPtr->AddRef();
                 VaultRecordPtr = other.VaultRecordPtr;
-                Vlt = other.Vlt;
             }
             else
             {
                 if (VaultRecordPtr != nullptr) VaultRecordPtr->RemoveRef();
-                Vlt = nullptr;
                 VaultRecordPtr = nullptr;
             }
         }
@@ -81,14 +78,11 @@ namespace mvlt
                 if (VaultRecordPtr != nullptr) VaultRecordPtr->RemoveRef();
 
                 VaultRecordPtr = other.VaultRecordPtr;
-                Vlt = other.Vlt;
                 other.VaultRecordPtr = nullptr;
-                other.Vlt = nullptr;
             }
             else
             {
                 if (VaultRecordPtr != nullptr) VaultRecordPtr->RemoveRef();
-                Vlt = nullptr;
                 VaultRecordPtr = nullptr;
             }
         }
@@ -169,7 +163,7 @@ namespace mvlt
             return res;
         }
 
-        WriteLock<RecursiveReadWriteMutex> writeLock(Vlt->RecursiveReadWriteMtx);
+        WriteLock<RecursiveReadWriteMutex> writeLock(VaultRecordPtr->ParentVault->RecursiveReadWriteMtx);
 
         // Copy data from function parametrs
         for (const auto& paramsIt : params)
@@ -199,7 +193,7 @@ namespace mvlt
             return res;
         }
 
-        ReadLock<RecursiveReadWriteMutex> readLock(Vlt->RecursiveReadWriteMtx);
+        ReadLock<RecursiveReadWriteMutex> readLock(VaultRecordPtr->ParentVault->RecursiveReadWriteMtx);
 
         // Check if Vault still accessable
         if (!VaultRecordPtr->GetIsValid())
@@ -210,7 +204,7 @@ namespace mvlt
         }
 
         // If key not exist
-        if (!Vlt->GetKeyType(key, res.SavedType))
+        if (!VaultRecordPtr->ParentVault->GetKeyType(key, res.SavedType))
         {
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::WrongKey;
@@ -242,7 +236,7 @@ namespace mvlt
         bool res = false;
 
         // Record that is not valid may outlive its Vault
-        if (IsValid()) res = Vlt->IsKeyExist(key);
+        if (IsValid()) res = VaultRecordPtr->ParentVault->IsKeyExist(key);
 
         return res;
     }
@@ -257,7 +251,7 @@ namespace mvlt
         {
             // Check if Vault still accessable
             if (VaultRecordPtr->GetIsValid())
-                res = Vlt->GetKeys();
+                res = VaultRecordPtr->ParentVault->GetKeys();
         }
 
         return res;
@@ -270,14 +264,14 @@ namespace mvlt
         // Record that is not valid may outlive its Vault, so check it before locking the Vault mutex
         if (IsValid())
         {
-            Vlt->RecursiveReadWriteMtx.ReadLock();
+            VaultRecordPtr->ParentVault->RecursiveReadWriteMtx.ReadLock();
 
             // Check if record was not erased while the Vault was being locked
             if (VaultRecordPtr->GetIsValid())
             {
                 std::cout << "Vault record " << VaultRecordPtr << ":" << "\n";
 
-                for (const auto& keyPair : Vlt->VaultHashMapStructure)
+                for (const auto& keyPair : VaultRecordPtr->ParentVault->VaultHashMapStructure)
                 {
                     DataSaver dataSaver;
                     VaultRecordPtr->GetDataSaver(keyPair.first, dataSaver);
@@ -287,7 +281,7 @@ namespace mvlt
             }
             else std::cout << "VaultRecordRef not valid!" << "\n";
 
-            Vlt->RecursiveReadWriteMtx.ReadUnlock();
+            VaultRecordPtr->ParentVault->RecursiveReadWriteMtx.ReadUnlock();
         }
         else std::cout << "VaultRecordRef not valid!" << "\n";
     }
@@ -300,7 +294,6 @@ namespace mvlt
             VaultRecordPtr->RemoveRef();
 
         VaultRecordPtr = nullptr;
-        Vlt = nullptr;
     }
 
     std::string VaultRecordRef::ToJson(const bool& isFormat, const std::size_t& tabSize) const noexcept
@@ -314,12 +307,12 @@ namespace mvlt
         // Record that is not valid may outlive its Vault, so check it before locking the Vault mutex
         if (IsValid())
         {
-            Vlt->RecursiveReadWriteMtx.ReadLock();
+            VaultRecordPtr->ParentVault->RecursiveReadWriteMtx.ReadLock();
 
             // Check if record was not erased while the Vault was being locked
             if (VaultRecordPtr->GetIsValid())
             {
-                for (const std::string& key : Vlt->KeysOrder)
+                for (const std::string& key : VaultRecordPtr->ParentVault->KeysOrder)
                 {
                     if (isFormat) res += "\n" + tab;
 
@@ -332,11 +325,11 @@ namespace mvlt
                     res += mvlt::ToJson(dataSaver);
 
                     ++keyCounter;
-                    if (keyCounter != Vlt->KeysOrder.size()) res += ",";
+                    if (keyCounter != VaultRecordPtr->ParentVault->KeysOrder.size()) res += ",";
                 }
             }
 
-            Vlt->RecursiveReadWriteMtx.ReadUnlock();
+            VaultRecordPtr->ParentVault->RecursiveReadWriteMtx.ReadUnlock();
         }
 
         if (isFormat) res += "\n";
@@ -354,12 +347,12 @@ namespace mvlt
         // Record that is not valid may outlive its Vault, so check it before locking the Vault mutex
         if (IsValid())
         {
-            Vlt->RecursiveReadWriteMtx.ReadLock();
+            VaultRecordPtr->ParentVault->RecursiveReadWriteMtx.ReadLock();
 
             // Check if record was not erased while the Vault was being locked
             if (VaultRecordPtr->GetIsValid())
             {
-                for (const std::string& key : Vlt->KeysOrder)
+                for (const std::string& key : VaultRecordPtr->ParentVault->KeysOrder)
                 {
                     DataSaver dataSaver;
                     VaultRecordPtr->GetDataSaver(key, dataSaver);
@@ -368,7 +361,7 @@ namespace mvlt
                 }
             }
 
-            Vlt->RecursiveReadWriteMtx.ReadUnlock();
+            VaultRecordPtr->ParentVault->RecursiveReadWriteMtx.ReadUnlock();
         }
 
         return res;
diff --git a/Source/VaultRecordRef.h b/Source/VaultRecordRef.h
index a22884f..3f07abf 100644
--- a/Source/VaultRecordRef.h
+++ b/Source/VaultRecordRef.h
@@ -20,9 +20,6 @@ namespace mvlt
     class VaultRecordRef
     {
     private:
-        // Pointer to Vault
-        Vault* Vlt = nullptr;
-
         // Pointer to VaultRecord inside Vault
         VaultRecord* VaultRecordPtr = nullptr;
 
diff --git a/Source/VaultRecordRef.hpp b/Source/VaultRecordRef.hpp
index a52b7e8..3b19755 100644
--- a/Source/VaultRecordRef.hpp
+++ b/Source/VaultRecordRef.hpp
@@ -27,7 +27,7 @@ namespace mvlt
             return res;
         }
 
-        WriteLock<RecursiveReadWriteMutex> Lock(Vlt->RecursiveReadWriteMtx);
+        WriteLock<RecursiveReadWriteMutex> Lock(VaultRecordPtr->ParentVault->RecursiveReadWriteMtx);
 
         // Check if Vault still accessable
         if (!VaultRecordPtr->GetIsValid())
@@ -37,7 +37,7 @@ namespace mvlt
             return res;
         }
 
-        res = Vlt->SetDataToRecord(VaultRecordPtr, key, data);
+        res = VaultRecordPtr->ParentVault->SetDataToRecord(VaultRecordPtr, key, data);
 
         return res;
     }
@@ -66,7 +66,7 @@ namespace mvlt
             return res;
         }
 
-        ReadLock<RecursiveReadWriteMutex> readLock(Vlt->RecursiveReadWriteMtx);
+        ReadLock<RecursiveReadWriteMutex> readLock(VaultRecordPtr->ParentVault->RecursiveReadWriteMtx);
 
         // Check if Vault still accessable
         if (!VaultRecordPtr->GetIsValid())
@@ -77,7 +77,7 @@ namespace mvlt
         }
 
         // If key not exist
-        if(!Vlt->GetKeyType(key, res.SavedType))
+        if(!VaultRecordPtr->ParentVault->GetKeyType(key, res.SavedType))
         {
             res.IsOperationSuccess = false;
             res.ResultCode = VaultOperationResultCode::WrongKey;
diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index 1f75c9c..7f9694a 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -187,7 +187,7 @@ namespace mvlt
             ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
 
             // Check if vault record ref depends on same vault as this
-            if (recordRef.Vlt == ParentVault && recordRef.IsValid())
+            if (recordRef.IsValid() && recordRef.VaultRecordPtr->ParentVault == ParentVault)
             {
                 // Add pointer to record from recordRef to this
                 std::pair<decltype(RecordsSet.begin()), bool> emplaceRes = RecordsSet.emplace(recordRef.VaultRecordPtr);
-- 
2.43.0


From 4d2d400ae23c0f7f3fa5e4507af1ad67f4cdc46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:52 +0000
Subject: [PATCH 18/44] fix: a record set copied or moved from a detached set
 behaved as a vault

---
 Source/VaultRecordSet.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index 7f9694a..48bdfc2 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -16,7 +16,6 @@ namespace mvlt
 
         WriteLock<RecursiveReadWriteMutex> writeLock(other.ParentVault->RecursiveReadWriteMtx);
 
-        VaultDerivedClass = VaultDerivedClasses::VaultRecordSetDerived;
         ParentVault = other.ParentVault;
 
         for (auto& keyCopierIt : other.VaultKeyCopiers)
@@ -37,8 +36,6 @@ namespace mvlt
 
             record->AddToDependentSets(this);
         }
-
-        RecursiveReadWriteMtx.Disable();
     }
 
     // codechecker_intentional [all] dont move other because
@@ -48,8 +45,6 @@ namespace mvlt
 
         WriteLock<RecursiveReadWriteMutex> writeLock(other.ParentVault->RecursiveReadWriteMtx);
 
-        VaultDerivedClass = VaultDerivedClasses::VaultRecordSetDerived;
-
         for (VaultRecord* record : other.RecordsSet)
         {
             record->EraseDependentSet(&other);
@@ -70,8 +65,6 @@ namespace mvlt
 
         ParentVault->RecordSetsSet.erase(&other);
         ParentVault->RecordSetsSet.emplace(this);
-
-        RecursiveReadWriteMtx.Disable();
     }
 
     VaultRecordSet::VaultRecordSet() noexcept
@@ -87,6 +80,9 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
+        VaultDerivedClass = VaultDerivedClasses::VaultRecordSetDerived;
+        RecursiveReadWriteMtx.Disable();
+
         if (other.GetIsParentVaultValid())
             CopySet(other);
     }
@@ -109,6 +105,9 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
+        VaultDerivedClass = VaultDerivedClasses::VaultRecordSetDerived;
+        RecursiveReadWriteMtx.Disable();
+
         if (other.GetIsParentVaultValid())
             MoveSet(std::move(other));
     }
-- 
2.43.0


From d9416fc19a19b6d3f0348decf5400cfceb251ca0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:52 +0000
Subject: [PATCH 19/44] fix: a moved record set lost its lookups, kept the old
 records of the target and left keys in the moved-from set

---
 Source/VaultRecordSet.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index 48bdfc2..7eed291 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -63,6 +63,14 @@ namespace mvlt
         RecordsSet = std::move(other.RecordsSet);
         RecordSetsSet = std::move(other.RecordSetsSet);
 
+        // Add moved records to the structure of this
+        for (VaultRecord* record : RecordsSet)
+            for (auto& adder : VaultRecordAdders)
+                adder.second(record);
+
+        // Remove keys from other because now it is detached from the Vault
+        other.Vault::DropVault();
+
         ParentVault->RecordSetsSet.erase(&other);
         ParentVault->RecordSetsSet.emplace(this);
     }
@@ -118,10 +126,9 @@ namespace mvlt
 
         if (&other != this)
         {
+            Reset();
             if (other.GetIsParentVaultValid())
                 MoveSet(std::move(other));
-            else
-                Reset();
         }
 
         return *this;
-- 
2.43.0


From 3952127784deb46821e6f4eb4ebfa4cfcb6030a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:07 +0000
Subject: [PATCH 20/44] fix: a writer woken up spuriously entered while readers
 were still inside

---
 Source/ReadWriteMutex.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/ReadWriteMutex.cpp b/Source/ReadWriteMutex.cpp
index d8bc577..57bbba8 100644
--- a/Source/ReadWriteMutex.cpp
+++ b/Source/ReadWriteMutex.cpp
@@ -51,7 +51,7 @@ namespace mvlt
 
             IsCondVarWaiting.store(true);
 
-            if (ReadCounter > 0) Cv.wait(lk);
+            while (ReadCounter > 0) Cv.wait(lk);
 
             IsCondVarWaiting.store(false);
         }
-- 
2.43.0


From 51c8218548a0452dcd6ed88057e90dfd74956d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:07 +0000
Subject: [PATCH 21/44] fix: locks held on one vault were counted for all
 vaults, so the other vaults were used without locking

---
 Source/ReadWriteMutex.cpp | 83 ++++++++++++++++++++++++++++++++-------
 1 file changed, 68 insertions(+), 15 deletions(-)

diff --git a/Source/ReadWriteMutex.cpp b/Source/ReadWriteMutex.cpp
index 57bbba8..2a4f63b 100644
--- a/Source/ReadWriteMutex.cpp
+++ b/Source/ReadWriteMutex.cpp
@@ -65,8 +65,44 @@ namespace mvlt
         }
     }
 
-    thread_local std::size_t LocalThreadReadLockCounter = 0;
-    thread_local std::size_t LocalThreadWriteLockCounter = 0;
+    // Numbers of locks that the current thread holds on one mutex
+    struct LocalThreadLockCounters
+    {
+        const RecursiveReadWriteMutex* Mutex;
+        LocalThreadLockCounters* Next;
+        std::size_t Read;
+        std::size_t Write;
+    };
+
+    // Each mutex has its own counters in each thread. Only mutexes held by the thread are in the list.
+    // It is a plain pointer because static objects may lock mutexes after thread local objects were destroyed
+    thread_local LocalThreadLockCounters* LocalThreadLocks = nullptr;
+
+    // Find counters of the mutex in the current thread or add new ones
+    static LocalThreadLockCounters& GetLocalThreadLock(const RecursiveReadWriteMutex* mutex) noexcept
+    {
+        for (LocalThreadLockCounters* it = LocalThreadLocks; it != nullptr; it = it->Next)
+            if (it->Mutex == mutex)
+                return *it;
+
+        LocalThreadLocks = new LocalThreadLockCounters{mutex, LocalThreadLocks, 0, 0};
+        return *LocalThreadLocks;
+    }
+
+    // Remove counters of the mutex that is no longer held by the current thread
+    static void EraseLocalThreadLock(const RecursiveReadWriteMutex* mutex) noexcept
+    {
+        for (LocalThreadLockCounters** it = &LocalThreadLocks; *it != nullptr; it = &(*it)->Next)
+        {
+            if ((*it)->Mutex == mutex)
+            {
+                LocalThreadLockCounters* next = (*it)->Next;
+                delete *it;
+                *it = next;
+                return;
+            }
+        }
+    }
 
     void RecursiveReadWriteMutex::Disable() noexcept
     {
@@ -77,12 +113,14 @@ namespace mvlt
     {
         if (IsActive)
         {
-            if (LocalThreadWriteLockCounter == 0)
+            LocalThreadLockCounters& counters = GetLocalThreadLock(this);
+
+            if (counters.Write == 0)
             {
-                if (LocalThreadReadLockCounter == 0)
+                if (counters.Read == 0)
                     Rwmx.ReadLock();
 
-                ++LocalThreadReadLockCounter;
+                ++counters.Read;
             }
         }
     }
@@ -91,12 +129,17 @@ namespace mvlt
     {
         if (IsActive)
         {
-            if (LocalThreadWriteLockCounter == 0)
+            LocalThreadLockCounters& counters = GetLocalThreadLock(this);
+
+            if (counters.Write == 0)
             {
-                if (LocalThreadReadLockCounter == 1)
+                if (counters.Read == 1)
+                {
+                    EraseLocalThreadLock(this);
                     Rwmx.ReadUnlock();
-
-                --LocalThreadReadLockCounter;
+                }
+                else
+                    --counters.Read;
             }
         }
     }
@@ -105,15 +148,17 @@ namespace mvlt
     {
         if (IsActive)
         {
-            if (LocalThreadWriteLockCounter == 0)
+            LocalThreadLockCounters& counters = GetLocalThreadLock(this);
+
+            if (counters.Write == 0)
             {
-                if (LocalThreadReadLockCounter > 0)
+                if (counters.Read > 0)
                     Rwmx.ReadUnlock();
 
                 Rwmx.WriteLock();
             }
 
-            ++LocalThreadWriteLockCounter;
+            ++counters.Write;
         }
     }
 
@@ -121,13 +166,21 @@ namespace mvlt
     {
         if (IsActive)
         {
-            if (LocalThreadWriteLockCounter == 1)
+            LocalThreadLockCounters& counters = GetLocalThreadLock(this);
+
+            if (counters.Write == 1)
             {
                 Rwmx.WriteUnlock();
-                if (LocalThreadReadLockCounter > 0)
+                if (counters.Read > 0)
+                {
                     Rwmx.ReadLock();
+                    counters.Write = 0;
+                }
+                else
+                    EraseLocalThreadLock(this);
             }
-            --LocalThreadWriteLockCounter;
+            else
+                --counters.Write;
         }
     }
 }
\ No newline at end of file
-- 
2.43.0


From 4a44c62e315d0f9d3094468be369862e02389c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:52 +0000
Subject: [PATCH 22/44] fix: record sets were changed under a read lock, so
 threads using one vault corrupted them

---
 Source/Vault.cpp          |  2 ++
 Source/Vault.h            |  3 +++
 Source/Vault.hpp          |  8 ++++----
 Source/VaultRecordSet.cpp | 34 ++++++++++++++++------------------
 Source/VaultRecordSet.hpp |  8 ++++----
 5 files changed, 29 insertions(+), 26 deletions(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index f6fbbec..e18e849 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -1079,6 +1079,8 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
+        ReadLock<RecursiveReadWriteMutex> readLock(RecursiveReadWriteMtx);
+
         return InvalidFileRecords;
     }
 
diff --git a/Source/Vault.h b/Source/Vault.h
index 2ac270e..e483e05 100644
--- a/Source/Vault.h
+++ b/Source/Vault.h
@@ -783,6 +783,9 @@ namespace mvlt
         /// \brief Default destructor
         ~Vault() noexcept;
 
+        /// Making Union function friendly
+        friend VaultOperationResult Union(const VaultRecordSet& a, const VaultRecordSet& b, VaultRecordSet& res) noexcept;
+
         /// Making Intersection function friendly
         friend VaultOperationResult Intersection(const VaultRecordSet& a, const VaultRecordSet& b, VaultRecordSet& res) noexcept;
     };
diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index e7aae36..879c8ed 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -279,8 +279,8 @@ namespace mvlt
 
         VaultOperationResult res;
 
-        // Lock Vault to read
-        ReadLock<RecursiveReadWriteMutex> readLock(RecursiveReadWriteMtx);
+        // Lock Vault to write because vaultRecordSet and the records dependent sets will be changed
+        WriteLock<RecursiveReadWriteMutex> writeLock(RecursiveReadWriteMtx);
 
         // If it is Vault object
         if (VaultDerivedClass == VaultDerivedClasses::VaultBase)
@@ -906,8 +906,8 @@ namespace mvlt
         res.IsOperationSuccess = true;
         res.ResultCode = VaultOperationResultCode::Success;
 
-        // Lock Vault to read
-        ReadLock<RecursiveReadWriteMutex> readLock(RecursiveReadWriteMtx);
+        // Lock Vault to write because vaultRecordSet and the records dependent sets will be changed
+        WriteLock<RecursiveReadWriteMutex> writeLock(RecursiveReadWriteMtx);
 
         // If it is Vault object
         if (VaultDerivedClass == VaultDerivedClasses::VaultBase)
diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index 7eed291..4379409 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -190,7 +190,7 @@ namespace mvlt
 
         if (GetIsParentVaultValid())
         {
-            ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
+            WriteLock<RecursiveReadWriteMutex> writeLock(ParentVault->RecursiveReadWriteMtx);
 
             // Check if vault record ref depends on same vault as this
             if (recordRef.IsValid() && recordRef.VaultRecordPtr->ParentVault == ParentVault)
@@ -268,6 +268,8 @@ namespace mvlt
 
         if (GetIsParentVaultValid())
         {
+            WriteLock<RecursiveReadWriteMutex> writeLock(ParentVault->RecursiveReadWriteMtx);
+
             // Remove this from records
             for (VaultRecord* record : RecordsSet)
                 record->EraseDependentSet(this);
@@ -287,7 +289,7 @@ namespace mvlt
 
         if (!GetIsParentVaultValid()) return false;
 
-        ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
+        WriteLock<RecursiveReadWriteMutex> writeLock(ParentVault->RecursiveReadWriteMtx);
         return Vault::EraseRecord(recordRefToErase);
     }
 
@@ -421,7 +423,7 @@ namespace mvlt
 
         if (res.IsOperationSuccess)
         {
-            ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
+            WriteLock<RecursiveReadWriteMutex> writeLock(ParentVault->RecursiveReadWriteMtx);
 
             for (VaultRecord* record : a.RecordsSet)
             {
@@ -475,7 +477,7 @@ namespace mvlt
 
         if (res.IsOperationSuccess)
         {
-            ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
+            WriteLock<RecursiveReadWriteMutex> writeLock(ParentVault->RecursiveReadWriteMtx);
 
             for (auto recordsSetIt = RecordsSet.begin(); recordsSetIt != RecordsSet.end();)
             {
@@ -525,7 +527,7 @@ namespace mvlt
 
         if (res.IsOperationSuccess)
         {
-            ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
+            WriteLock<RecursiveReadWriteMutex> writeLock(ParentVault->RecursiveReadWriteMtx);
 
             for (auto recordsSetIt = RecordsSet.begin(); recordsSetIt != RecordsSet.end();)
             {
@@ -566,24 +568,20 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
-        bool res = false;
+        if (a.ParentVault != b.ParentVault) return false;
 
-        if (a.ParentVault == b.ParentVault && a.RecordsSet == b.RecordsSet)
-            res = true;
+        // Sets that do not depend on any Vault are empty
+        if (!a.GetIsParentVaultValid()) return true;
 
-        return res;
+        ReadLock<RecursiveReadWriteMutex> readLock(a.ParentVault->RecursiveReadWriteMtx);
+        return a.RecordsSet == b.RecordsSet;
     }
 
     bool operator!=(const VaultRecordSet& a, const VaultRecordSet& b) noexcept
     {
         DBG_LOG_ENTER();
 
-        bool res = false;
-
-        if (a.ParentVault != b.ParentVault || a.RecordsSet != b.RecordsSet)
-            res = true;
-
-        return res;
+        return !(a == b);
     }
 
     VaultOperationResult Union(const VaultRecordSet& a, const VaultRecordSet& b, VaultRecordSet& res) noexcept
@@ -614,6 +612,8 @@ namespace mvlt
         }
         else
         {
+            WriteLock<RecursiveReadWriteMutex> writeLock(a.ParentVault->RecursiveReadWriteMtx);
+
             res = a;
             vor = res.Join(b);
         }
@@ -654,7 +654,7 @@ namespace mvlt
         {
             if (res.GetIsParentVaultValid()) res.Reset();
 
-            a.ParentVault->RecursiveReadWriteMtx.ReadLock();
+            WriteLock<RecursiveReadWriteMutex> writeLock(a.ParentVault->RecursiveReadWriteMtx);
 
             res.ParentVault = a.ParentVault;
 
@@ -704,8 +704,6 @@ namespace mvlt
                     }
                 }
             }
-
-            a.ParentVault->RecursiveReadWriteMtx.ReadUnlock();
         }
 
         return vor;
diff --git a/Source/VaultRecordSet.hpp b/Source/VaultRecordSet.hpp
index 64aee33..7dc381e 100644
--- a/Source/VaultRecordSet.hpp
+++ b/Source/VaultRecordSet.hpp
@@ -23,7 +23,7 @@ namespace mvlt
             }
             else
             {
-                ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
+                WriteLock<RecursiveReadWriteMutex> writeLock(ParentVault->RecursiveReadWriteMtx);
 
                 // Remove old data from vaultRecordSet
                 if (vaultRecordSet.ParentVault != ParentVault)
@@ -208,7 +208,7 @@ namespace mvlt
             }
             else
             {
-                ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
+                WriteLock<RecursiveReadWriteMutex> writeLock(ParentVault->RecursiveReadWriteMtx);
 
                 // Remove old data from vaultRecordSet
                 if (vaultRecordSet.ParentVault != ParentVault)
@@ -259,7 +259,7 @@ namespace mvlt
 
         if (GetIsParentVaultValid())
         {
-            ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
+            WriteLock<RecursiveReadWriteMutex> writeLock(ParentVault->RecursiveReadWriteMtx);
             res = Vault::EraseRecord(key, keyValue);
         }
         else
@@ -286,7 +286,7 @@ namespace mvlt
 
         if (GetIsParentVaultValid())
         {
-            ReadLock<RecursiveReadWriteMutex> readLock(ParentVault->RecursiveReadWriteMtx);
+            WriteLock<RecursiveReadWriteMutex> writeLock(ParentVault->RecursiveReadWriteMtx);
             res = Vault::EraseRecords(key, keyValue, amountOfRecords);
         }
         else
-- 
2.43.0


From 53b2561ed0a48a494b104c3524d21550036c390b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:33 +0000
Subject: [PATCH 23/44] fix: assigning a vault changed it under a read lock and
 showed it half replaced to other threads

---
 Source/Vault.cpp | 40 +++++++---------------------------------
 1 file changed, 7 insertions(+), 33 deletions(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index e18e849..6e92fb2 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -238,36 +238,9 @@ namespace mvlt
 
         if (&other != this)
         {
-            DropVault();
-
-            ReadLock<RecursiveReadWriteMutex> readLock(RecursiveReadWriteMtx);
-            ReadLock<RecursiveReadWriteMutex> otherReadLock(other.RecursiveReadWriteMtx);
-
-            VaultDerivedClass = VaultDerivedClasses::VaultBase;
-
-            // Copy keys
-            for (auto& keyCopierIt : other.VaultKeyCopiers)
-                keyCopierIt.second(this);
-
-            // Set proper key order
-            KeysOrder = other.KeysOrder;
-
-            // Set unique keys
-            UniqueKeys = other.UniqueKeys;
-
-            for (VaultRecord* recordPtr : other.RecordsSet)
-            {
-                // Allocate space to new record and copy data to it
-                VaultRecord* newRecord = new VaultRecord(*recordPtr);
-                newRecord->ParentVault = this;
-                
-                // Add new record to set
-                RecordsSet.emplace(newRecord);
-
-                // Add new record to every maps inside VaultStructureHashMap
-                for (const auto& vaultRecordAddersIt : VaultRecordAdders)
-                    vaultRecordAddersIt.second(newRecord);
-            }
+            // Copy first, so that the mutexes of both vaults are never locked together
+            Vault copy(other);
+            *this = std::move(copy);
         }
 
         return *this;
@@ -277,7 +250,7 @@ namespace mvlt
     {
         DBG_LOG_ENTER();
 
-        ReadLock<RecursiveReadWriteMutex> otherReadLock(other.RecursiveReadWriteMtx);
+        WriteLock<RecursiveReadWriteMutex> otherWriteLock(other.RecursiveReadWriteMtx);
 
         VaultDerivedClass = VaultDerivedClasses::VaultBase;
 
@@ -310,9 +283,10 @@ namespace mvlt
 
         if (this != &other)
         {
-            DropVault();
+            WriteLock<RecursiveReadWriteMutex> writeLock(RecursiveReadWriteMtx);
+            WriteLock<RecursiveReadWriteMutex> otherWriteLock(other.RecursiveReadWriteMtx);
 
-            ReadLock<RecursiveReadWriteMutex> otherReadLock(other.RecursiveReadWriteMtx);
+            DropVault();
 
             VaultDerivedClass = VaultDerivedClasses::VaultBase;
 
-- 
2.43.0


From fc6a2f39b8d5d9a7c9a172495f565026b1bc337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 24/44] fix: integers out of the range of their type and
 negative unsigned integers were read from text as other numbers

---
 Source/Strings/FromString.h | 36 +++++++++++++++++++++++-------------
 1 file changed, 23 insertions(+), 13 deletions(-)

diff --git a/Source/Strings/FromString.h b/Source/Strings/FromString.h
index 4a2b38f..1cc63c9 100644
--- a/Source/Strings/FromString.h
+++ b/Source/Strings/FromString.h
@@ -1,5 +1,6 @@
 #pragma once
 
+#include <limits>
 #include <string>
 #include <cstdint>
 
@@ -184,8 +185,6 @@ namespace mvlt
     {
         if (stringToCopyDataFrom.length() == 0) return false;
 
-        T res = 0;
-
         std::size_t i = 0;
         bool isNegative = false;
 
@@ -195,16 +194,23 @@ namespace mvlt
             i = 1;
         }
 
+        // The absolute value is accumulated, so it may be one greater for negative numbers
+        std::uint64_t res = 0;
+        const std::uint64_t maxRes = static_cast<std::uint64_t>(std::numeric_limits<T>::max()) + (isNegative ? 1 : 0);
+
         for (; i < stringToCopyDataFrom.length(); ++i)
         {
             if (stringToCopyDataFrom[i] < '0' || stringToCopyDataFrom[i] > '9') return false;
-            res *= 10;
-            res += static_cast<int>(stringToCopyDataFrom[i] - '0');
+            const std::uint64_t digit = static_cast<std::uint64_t>(stringToCopyDataFrom[i] - '0');
+
+            // Refuse numbers that do not fit into T
+            if (res > (maxRes - digit) / 10) return false;
+            res = res * 10 + digit;
         }
 
         // codechecker_intentional [all] its not error because negative numbers handled by if
-        if (isNegative) data = res * -1;
-        else data = res;
+        if (isNegative) data = static_cast<T>(0 - res);
+        else data = static_cast<T>(res);
 
         return true;
     }
@@ -276,16 +282,20 @@ namespace mvlt
     {
         if (stringToCopyDataFrom.length() == 0) return false;
 
-        T res = 0;
+        std::uint64_t res = 0;
+        const std::uint64_t maxRes = std::numeric_limits<T>::max();
 
         for (std::size_t i = 0; i < stringToCopyDataFrom.length(); ++i)
         {
             if (stringToCopyDataFrom[i] < '0' || stringToCopyDataFrom[i] > '9') return false;
-            res *= 10;
-            res += static_cast<int>(stringToCopyDataFrom[i] - '0');
+            const std::uint64_t digit = static_cast<std::uint64_t>(stringToCopyDataFrom[i] - '0');
+
+            // Refuse numbers that do not fit into T
+            if (res > (maxRes - digit) / 10) return false;
+            res = res * 10 + digit;
         }
 
-        data = res;
+        data = static_cast<T>(res);
         return true;
     }
 
@@ -302,7 +312,7 @@ namespace mvlt
     template <>
     inline bool FromString(const std::string& stringToCopyDataFrom, std::uint16_t& data) noexcept
     {
-        return FromStringSignedInt(stringToCopyDataFrom, data);
+        return FromStringUnsignedInt(stringToCopyDataFrom, data);
     }
 
     /**
@@ -318,7 +328,7 @@ namespace mvlt
     template <>
     inline bool FromString(const std::string& stringToCopyDataFrom, std::uint32_t& data) noexcept
     {
-        return FromStringSignedInt(stringToCopyDataFrom, data);
+        return FromStringUnsignedInt(stringToCopyDataFrom, data);
     }
 
     /**
@@ -334,7 +344,7 @@ namespace mvlt
     template <>
     inline bool FromString(const std::string& stringToCopyDataFrom, std::uint64_t& data) noexcept
     {
-        return FromStringSignedInt(stringToCopyDataFrom, data);
+        return FromStringUnsignedInt(stringToCopyDataFrom, data);
     }
 
     /**@} */
-- 
2.43.0


From e41242b43451680caf8ea4e94d457f1b351b46d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 25/44] fix: 8 bit integers could be converted to text and
 saved but not read back

---
 Source/Strings/FromString.h | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/Source/Strings/FromString.h b/Source/Strings/FromString.h
index 1cc63c9..dd8c30b 100644
--- a/Source/Strings/FromString.h
+++ b/Source/Strings/FromString.h
@@ -215,6 +215,22 @@ namespace mvlt
         return true;
     }
 
+    /**
+        \brief FromString specialization for working with std::int8_t int
+
+        \tparam <std::int8_t> int as a type
+
+        \param [in] stringToCopyDataFrom the string to be converted to type int
+        \param [out] data the variable where the converted string will be written
+
+        \return Returns true if the conversion was successful, otherwise it returns false
+    */
+    template <>
+    inline bool FromString(const std::string& stringToCopyDataFrom, std::int8_t& data) noexcept
+    {
+        return FromStringSignedInt(stringToCopyDataFrom, data);
+    }
+
     /**
         \brief FromString specialization for working with std::int16_t int
 
@@ -299,6 +315,22 @@ namespace mvlt
         return true;
     }
 
+    /**
+        \brief FromString specialization for working with std::uint8_t
+
+        \tparam <std::uint8_t> int as a type
+
+        \param [in] stringToCopyDataFrom the string to be converted to type unsigned int
+        \param [out] data the variable where the converted string will be written
+
+        \return Returns true if the conversion was successful, otherwise it returns false
+    */
+    template <>
+    inline bool FromString(const std::string& stringToCopyDataFrom, std::uint8_t& data) noexcept
+    {
+        return FromStringUnsignedInt(stringToCopyDataFrom, data);
+    }
+
     /**
         \brief FromString specialization for working with std::uint16_t
 
-- 
2.43.0


From a89b4b3550d5853edefca24f1cda2ffbc81fb83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:40 +0000
Subject: [PATCH 26/44] fix: floating point numbers with many digits were read
 from text as other numbers, a dot without digits as zero

---
 Source/Strings/FromString.h | 46 +++++++++++++++----------------------
 1 file changed, 18 insertions(+), 28 deletions(-)

diff --git a/Source/Strings/FromString.h b/Source/Strings/FromString.h
index dd8c30b..340e2ab 100644
--- a/Source/Strings/FromString.h
+++ b/Source/Strings/FromString.h
@@ -1,7 +1,9 @@
 #pragma once
 
 #include <limits>
+#include <locale>
 #include <string>
+#include <sstream>
 #include <cstdint>
 
 namespace mvlt
@@ -95,42 +97,30 @@ namespace mvlt
     {
         if (stringToCopyDataFrom.length() == 0) return false;
 
-        int integer = 0, fractional = 0;
+        bool isDigit = false, isFractional = false;
 
-        std::size_t i = 0;
-        bool isNegative = false;
-
-        if (stringToCopyDataFrom[0] == '-' && stringToCopyDataFrom.length() > 1)
+        for (std::size_t i = (stringToCopyDataFrom[0] == '-' ? 1 : 0); i < stringToCopyDataFrom.length(); ++i)
         {
-            isNegative = true;
-            i = 1;
+            if (stringToCopyDataFrom[i] == '.' && !isFractional)
+                isFractional = true;
+            else if (stringToCopyDataFrom[i] >= '0' && stringToCopyDataFrom[i] <= '9')
+                isDigit = true;
+            else
+                return false;
         }
 
-        for (; i < stringToCopyDataFrom.length(); ++i)
-        {
-            if (stringToCopyDataFrom[i] == '.')
-            {
-                ++i;
-                break;
-            }
+        if (!isDigit) return false;
 
-            if (stringToCopyDataFrom[i] < '0' || stringToCopyDataFrom[i] > '9') return false;
-            integer *= 10;
-            integer += static_cast<int>(stringToCopyDataFrom[i] - '0');
-        }
+        // Conversion must not depend on the global locale
+        std::istringstream stream(stringToCopyDataFrom);
+        stream.imbue(std::locale::classic());
 
-        T coeff = 1;
-        for (; i < stringToCopyDataFrom.length(); ++i)
-        {
-            if (stringToCopyDataFrom[i] < '0' || stringToCopyDataFrom[i] > '9') return false;
-            coeff /= 10;
-            fractional *= 10;
-            fractional += static_cast<int>(stringToCopyDataFrom[i] - '0');
-        }
+        T res = 0;
 
-        data = static_cast<T>(integer) + static_cast<T>(fractional) * coeff;
+        // Refuse numbers that do not fit into T
+        if (!(stream >> res)) return false;
 
-        if (isNegative) data *= -1;
+        data = res;
 
         return true;
     }
-- 
2.43.0


From 878a68068f42ca71e3294140300a77016a4da5f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:28 +0000
Subject: [PATCH 27/44] fix: json contained unescaped strings and key names

---
 Source/Strings/ToJson.cpp | 33 ++++++++++++++++++++++++++++++++-
 Source/Strings/ToJson.h   | 11 ++++++++++-
 Source/Vault.cpp          |  4 ++--
 Source/VaultRecordRef.cpp |  2 +-
 4 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/Source/Strings/ToJson.cpp b/Source/Strings/ToJson.cpp
index 8ee39dc..640c566 100644
--- a/Source/Strings/ToJson.cpp
+++ b/Source/Strings/ToJson.cpp
@@ -20,13 +20,44 @@ namespace mvlt
             return true;
     }
 
+    std::string EscapeJsonString(const std::string& str)
+    {
+        static const char hexChars[] = "0123456789abcdef";
+        std::string res;
+
+        for (const char& symbol : str)
+        {
+            switch (symbol)
+            {
+            case '"': res += "\\\""; break;
+            case '\\': res += "\\\\"; break;
+            case '\n': res += "\\n"; break;
+            case '\r': res += "\\r"; break;
+            case '\t': res += "\\t"; break;
+            default:
+                // Other control symbols can be written only using their codes
+                if (static_cast<unsigned char>(symbol) < 0x20)
+                {
+                    res += "\\u00";
+                    res += hexChars[symbol >> 4];
+                    res += hexChars[symbol & 0xf];
+                }
+                else
+                    res += symbol;
+                break;
+            }
+        }
+
+        return res;
+    }
+
     std::string ToJson(const DataSaver& dataSaver)
     {
         std::string res;
         std::type_index dataType = dataSaver.GetDataType();
 
         if (IsQuotedJsonType(dataType))
-            res = "\"" + dataSaver.Str() + "\"";
+            res = "\"" + EscapeJsonString(dataSaver.Str()) + "\"";
         else
             res = dataSaver.Str();
 
diff --git a/Source/Strings/ToJson.h b/Source/Strings/ToJson.h
index 066bbf3..08faa03 100644
--- a/Source/Strings/ToJson.h
+++ b/Source/Strings/ToJson.h
@@ -13,6 +13,15 @@ namespace mvlt
     */
     bool IsQuotedJsonType(const std::type_index& dataType);
 
+    /**
+        \brief A function for escaping symbols that cannot be inside json string
+
+        \param [in] str the string to be escaped
+
+        \return string that can be placed between quotes in json
+    */
+    std::string EscapeJsonString(const std::string& str);
+
     /**
         \brief Method for convert DataSaver to json string
 
@@ -37,7 +46,7 @@ namespace mvlt
         std::string res;
 
         if (IsQuotedJsonType(typeid(T)))
-            res = "\"" + ToString(data) + "\"";
+            res = "\"" + EscapeJsonString(ToString(data)) + "\"";
         else
             res = ToString(data);
 
diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 6e92fb2..8c59bfd 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -727,7 +727,7 @@ namespace mvlt
             if (!isArray)
             {
                 if (isUseRecordTemplate)
-                    res << "\"" << recordTemplate << counter << "\":";
+                    res << "\"" << EscapeJsonString(recordTemplate) << counter << "\":";
                 else
                     res << "\"" << record << "\":";
             }
@@ -745,7 +745,7 @@ namespace mvlt
                 DataSaver dataSaver;
                 record->GetDataSaver(key, dataSaver);
 
-                res << "\"" << key << "\":";
+                res << "\"" << EscapeJsonString(key) << "\":";
 
                 if (isFormat) res << " ";
                 res << mvlt::ToJson(dataSaver);
diff --git a/Source/VaultRecordRef.cpp b/Source/VaultRecordRef.cpp
index fb660ce..83b7c44 100644
--- a/Source/VaultRecordRef.cpp
+++ b/Source/VaultRecordRef.cpp
@@ -319,7 +319,7 @@ namespace mvlt
                     DataSaver dataSaver;
                     VaultRecordPtr->GetDataSaver(key, dataSaver);
 
-                    res += "\"" + key + "\":";
+                    res += "\"" + EscapeJsonString(key) + "\":";
 
                     if (isFormat) res += " ";
                     res += mvlt::ToJson(dataSaver);
-- 
2.43.0


From 422717cae60777c273646f1f4300957594ebb124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 28/44] fix: infinity and nan were written to json as invalid
 literals

---
 Source/Strings/ToJson.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Source/Strings/ToJson.cpp b/Source/Strings/ToJson.cpp
index 640c566..5d60cc4 100644
--- a/Source/Strings/ToJson.cpp
+++ b/Source/Strings/ToJson.cpp
@@ -59,8 +59,14 @@ namespace mvlt
         if (IsQuotedJsonType(dataType))
             res = "\"" + EscapeJsonString(dataSaver.Str()) + "\"";
         else
+        {
             res = dataSaver.Str();
 
+            // Json does not have literals for infinity and nan
+            if ((dataType == typeid(float) || dataType == typeid(double)) && (res.back() < '0' || res.back() > '9'))
+                res = "null";
+        }
+
         return res;
     }
 }
\ No newline at end of file
-- 
2.43.0


From 4bdc4d9e3917c157b354175efa7ba07c3ec43bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 29/44] fix: value holder assigned from an empty one kept the
 type and functions of its old value

---
 Source/DataSaver.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Source/DataSaver.cpp b/Source/DataSaver.cpp
index 4029dab..9e436a6 100644
--- a/Source/DataSaver.cpp
+++ b/Source/DataSaver.cpp
@@ -46,6 +46,12 @@ namespace mvlt
             {
                 // If other is empty clear the variables
                 Ptr = nullptr;
+                DataType = typeid(void);
+                CopyFunc = nullptr;
+                DeleteFunc = nullptr;
+                ToStringFunc = nullptr;
+                CustomDeleteFunc = nullptr;
+                SetDataFromStringFunc = nullptr;
             }
         }
 
-- 
2.43.0


From c6b727b6602967b73413849cc8bb2e74165e4b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 30/44] fix: converting an empty value holder from or to a
 string called a null function

---
 Source/DataSaver.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Source/DataSaver.cpp b/Source/DataSaver.cpp
index 9e436a6..821d16d 100644
--- a/Source/DataSaver.cpp
+++ b/Source/DataSaver.cpp
@@ -60,6 +60,9 @@ namespace mvlt
 
     bool DataSaver::SetDataFromString(const std::string& data) noexcept
     {
+        // Empty DataSaver does not have type
+        if (Ptr == nullptr) return false;
+
         return SetDataFromStringFunc(Ptr, data);
     }
 
@@ -92,6 +95,9 @@ namespace mvlt
 
     std::string DataSaver::Str() const noexcept
     {
+        // Empty DataSaver does not have data
+        if (Ptr == nullptr) return "";
+
         return ToStringFunc(Ptr);
     }
 
-- 
2.43.0


From 722cae6db9ecbcff82c3c683d620298a2b82c94e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 31/44] fix: PrintAsTable printed all records when asked for
 none

---
 Source/Strings/PrintAsTable.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/Source/Strings/PrintAsTable.h b/Source/Strings/PrintAsTable.h
index b03e5aa..2e0ca28 100644
--- a/Source/Strings/PrintAsTable.h
+++ b/Source/Strings/PrintAsTable.h
@@ -90,6 +90,8 @@ namespace mvlt
         std::size_t counter = 0;
         for (const auto& record : container)
         {
+            if (counter == amountOfRecords) break;
+
             std::cout << "|";
             for (std::size_t i = 0; i < realKeys->size(); ++i)
             {
@@ -104,7 +106,6 @@ namespace mvlt
                 std::cout << "\n";
 
             ++counter;
-            if (counter == amountOfRecords) break;
         }
 
         // Print splitter
-- 
2.43.0


From 71143c43bef55102d140e363e622f45a17bfa81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:29 +0000
Subject: [PATCH 32/44] fix: printed tables showed data of the previous cell in
 cells without data

---
 Source/Strings/PrintAsTable.h | 2 ++
 Source/Vault.cpp              | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/Source/Strings/PrintAsTable.h b/Source/Strings/PrintAsTable.h
index 2e0ca28..ff45e55 100644
--- a/Source/Strings/PrintAsTable.h
+++ b/Source/Strings/PrintAsTable.h
@@ -51,6 +51,7 @@ namespace mvlt
         {
             for (const auto& record : container)
             {
+                dataString.clear();
                 record.GetDataAsString((*realKeys)[i], dataString);
                 if (dataString.length() > maxLengths[i]) maxLengths[i] = dataString.length();
             }
@@ -95,6 +96,7 @@ namespace mvlt
             std::cout << "|";
             for (std::size_t i = 0; i < realKeys->size(); ++i)
             {
+                dataString.clear();
                 record.GetDataAsString((*realKeys)[i], dataString);
                 std::cout << " " << dataString;
                 for (std::size_t j = dataString.length(); j < maxLengths[i]; ++j) std::cout << " ";
diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 8c59bfd..7d76c43 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -852,6 +852,7 @@ namespace mvlt
         {
             for (const auto& record : RecordsSet)
             {
+                dataString.clear();
                 record->GetDataAsString(key, dataString);
                 if (dataString.length() > maxLengths[counter]) maxLengths[counter] = dataString.length();   
             }
@@ -907,6 +908,7 @@ namespace mvlt
             std::cout << "|";
             for (const std::string& key : *keysList)
             {
+                dataString.clear();
                 record.GetDataAsString(key, dataString);
                 std::cout << " " << dataString;
                 for (std::size_t j = dataString.length(); j < maxLengths[counter]; ++j) std::cout << " ";
-- 
2.43.0


From 3ce1c5f4623c6393649e916598eba22760b129d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 33/44] fix: an empty line after a line ended by LF was
 swallowed by the csv parser

---
 Source/CsvParser/CsvParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/CsvParser/CsvParser.cpp b/Source/CsvParser/CsvParser.cpp
index 3969a08..171984f 100644
--- a/Source/CsvParser/CsvParser.cpp
+++ b/Source/CsvParser/CsvParser.cpp
@@ -65,7 +65,7 @@ namespace mvlt
                         vectorWithNext.emplace_back(std::move(recordPole));
 
                     // Check if it is CRLF.
-                    if (FileReader.GetCurrentPos() < FileReader.GetFileSize() - 1 && FileReader.GetNextChar() == 10)
+                    if (FileReader.GetChar() == 13 && FileReader.GetCurrentPos() < FileReader.GetFileSize() - 1 && FileReader.GetNextChar() == 10)
                         FileReader.Move();
 
                     FileReader.Move();
-- 
2.43.0


From 0a32513f6c6f1af6cf276443e2b12b07f24cc40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:17 +0000
Subject: [PATCH 34/44] fix: the csv parser dropped an empty last field of a
 row

---
 Source/CsvParser/CsvParser.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/Source/CsvParser/CsvParser.cpp b/Source/CsvParser/CsvParser.cpp
index 171984f..8a24102 100644
--- a/Source/CsvParser/CsvParser.cpp
+++ b/Source/CsvParser/CsvParser.cpp
@@ -47,6 +47,9 @@ namespace mvlt
         // Is escaping flag
         bool isEscaping = false;
 
+        // Is it at least an empty record pole after last separator flag
+        bool isPole = false;
+
         // Record pole
         std::string recordPole;
 
@@ -61,7 +64,7 @@ namespace mvlt
                 if (!isEscaping && (FileReader.GetChar() == 13 || FileReader.GetChar() == 10 )) // 13 - CR or 0d. 10 - LF or 0a.
                 {
                     // Add last record
-                    if (!recordPole.empty())
+                    if (isPole || !recordPole.empty())
                         vectorWithNext.emplace_back(std::move(recordPole));
 
                     // Check if it is CRLF.
@@ -80,6 +83,7 @@ namespace mvlt
                     {
                         // Start escaping
                         isEscaping = true;
+                        isPole = true;
                         recordPole.clear();
                         continue;
                     }
@@ -103,6 +107,9 @@ namespace mvlt
                     // Set new record pole to record
                     vectorWithNext.emplace_back(std::move(recordPole));
                     recordPole.clear();
+
+                    // There is always one more record pole after separator
+                    isPole = true;
                     continue;
                 }
                 
@@ -112,7 +119,7 @@ namespace mvlt
         }
 
         // Add last record
-        if (!recordPole.empty())
+        if (isPole || !recordPole.empty())
             vectorWithNext.emplace_back(std::move(recordPole));
 
         if (!vectorWithNext.empty())
-- 
2.43.0


From de959b4e8e345905d7cb3d72b8b241cb70c7441b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 35/44] fix: fields with a custom separator or a carriage
 return were saved to csv without quotes

---
 Source/CsvParser/CsvParser.cpp | 6 +++---
 Source/CsvParser/CsvParser.h   | 3 ++-
 Source/Vault.cpp               | 4 ++--
 3 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/Source/CsvParser/CsvParser.cpp b/Source/CsvParser/CsvParser.cpp
index 8a24102..c987d04 100644
--- a/Source/CsvParser/CsvParser.cpp
+++ b/Source/CsvParser/CsvParser.cpp
@@ -2,9 +2,9 @@
 
 namespace mvlt
 {
-    std::string FormatStringToCsv(const std::string& str) noexcept
+    std::string FormatStringToCsv(const std::string& str, const std::string& separator) noexcept
     {
-        bool isEscapingRequired = false;
+        bool isEscapingRequired = !separator.empty() && str.find(separator) != std::string::npos;
         std::string res;
         
         for (const char& symbol : str)
@@ -19,7 +19,7 @@ namespace mvlt
             if (symbol == ',')
                 isEscapingRequired = true;
 
-            if (symbol == '\n')
+            if (symbol == '\n' || symbol == '\r')
                 isEscapingRequired = true;
 
             res += symbol;
diff --git a/Source/CsvParser/CsvParser.h b/Source/CsvParser/CsvParser.h
index 308a38c..6d838c3 100644
--- a/Source/CsvParser/CsvParser.h
+++ b/Source/CsvParser/CsvParser.h
@@ -30,10 +30,11 @@ namespace mvlt
         - "  - a quotation mark to end escaping
 
         \param [in] str the string to be converted
+        \param [in] separator the separator of the csv fields
 
         \return returns a string in csv format
     */
-    std::string FormatStringToCsv(const std::string& str) noexcept;
+    std::string FormatStringToCsv(const std::string& str, const std::string& separator = ",") noexcept;
 
     /// \brief A class for parsing csv files that provides data in a form similar to generators
     class CsvParser
diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 7d76c43..1fe788e 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -1001,7 +1001,7 @@ namespace mvlt
                 {
                     std::string data;
                     record->GetDataAsString(key, data);
-                    csvFile << FormatStringToCsv(data);
+                    csvFile << FormatStringToCsv(data, separator);
 
                     // Checking not to write a comma to the end of the line
                     if (counter == 1) break;
@@ -1021,7 +1021,7 @@ namespace mvlt
                 {
                     std::string data;
                     record->GetDataAsString(key, data);
-                    csvFile << FormatStringToCsv(data);
+                    csvFile << FormatStringToCsv(data, separator);
 
                     // Checking not to write a comma to the end of the line
                     if (counter == 1) break;
-- 
2.43.0


From 096d650590931d0cca7c5b21182419d693fba0b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 36/44] fix: saving to csv lost single empty fields, did not
 quote key names and read past the end of the keys of a vault without keys

---
 Source/Vault.cpp | 83 ++++++++++++++++--------------------------------
 1 file changed, 27 insertions(+), 56 deletions(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 1fe788e..5cab227 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -968,70 +968,41 @@ namespace mvlt
         // C array to store correct new line characters. 
         const char endOfLine[2] = {13, 10}; // 13 - CR or 0d. 10 - LF or 0a.
 
-        // Save keys to file
-        if (isSaveKey)
-        {
-            if (keys.empty())
-            {
-                auto keysOrderIt = KeysOrder.cbegin();
-                csvFile << *keysOrderIt;
-                ++keysOrderIt;
-                for (;keysOrderIt != KeysOrder.cend(); ++keysOrderIt) csvFile << separator << *keysOrderIt;
-                if (KeysOrder.size() != 0)
-                    csvFile.write(endOfLine, 2);
-            }
-            else 
-            {
-                auto keysOrderIt = keys.cbegin();
-                csvFile << *keysOrderIt;
-                ++keysOrderIt;
-                for (;keysOrderIt != keys.cend(); ++keysOrderIt) csvFile << separator << *keysOrderIt;
-                if (KeysOrder.size() != 0)
-                    csvFile.write(endOfLine, 2);
-            }
-        }
+        // Keys to save
+        std::vector<std::string> savedKeys = keys;
+        if (savedKeys.empty())
+            savedKeys.assign(KeysOrder.begin(), KeysOrder.end());
 
-        if (keys.empty())
+        // Function to save one field of the record
+        auto saveField = [&](const std::size_t& i, const std::string& data)
         {
-            for (const auto& record : RecordsSet)
-            {
-                // Getting the number of items in a record 
-                std::size_t counter = record->Size();
-                for (const std::string& key : KeysOrder)
-                {
-                    std::string data;
-                    record->GetDataAsString(key, data);
-                    csvFile << FormatStringToCsv(data, separator);
+            // Separate field from the previous one
+            if (i != 0) csvFile << separator;
 
-                    // Checking not to write a comma to the end of the line
-                    if (counter == 1) break;
+            // The only field of the record has to be quoted if it is empty, otherwise it would be an empty line
+            if (savedKeys.size() == 1 && data.empty()) csvFile << "\"\"";
+            else csvFile << FormatStringToCsv(data, separator);
+        };
 
-                    csvFile << separator;
-                    --counter;
-                }
-                csvFile.write(endOfLine, 2);
-            }
-        }
-        else 
+        // Save keys to file
+        if (isSaveKey && !savedKeys.empty())
         {
-            for (const auto& record : RecordsSet)
-            {
-                std::size_t counter = keys.size();
-                for (const std::string& key : keys)
-                {
-                    std::string data;
-                    record->GetDataAsString(key, data);
-                    csvFile << FormatStringToCsv(data, separator);
-
-                    // Checking not to write a comma to the end of the line
-                    if (counter == 1) break;
+            for (std::size_t i = 0; i < savedKeys.size(); ++i)
+                saveField(i, savedKeys[i]);
 
-                    csvFile << separator;
-                    --counter;
-                }
+            csvFile.write(endOfLine, 2);
+        }
 
-                csvFile.write(endOfLine, 2);
+        for (const auto& record : RecordsSet)
+        {
+            for (std::size_t i = 0; i < savedKeys.size(); ++i)
+            {
+                std::string data;
+                record->GetDataAsString(savedKeys[i], data);
+                saveField(i, data);
             }
+
+            csvFile.write(endOfLine, 2);
         }
 
         return true;
-- 
2.43.0


From 3b41d77d838da2f719064f3d097dd3e44ca9e9bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 37/44] fix: saving to a file reported success when writing
 failed

---
 Source/Vault.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 5cab227..2bb2351 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -1005,7 +1005,10 @@ namespace mvlt
             csvFile.write(endOfLine, 2);
         }
 
-        return true;
+        // Data may be written only when the file is closed
+        csvFile.close();
+
+        return !csvFile.fail();
     }
 
     bool Vault::ReadFile(const std::string& fileName, const char& separator, const bool& isLoadKeys, const std::vector<std::string>& keys) noexcept
-- 
2.43.0


From 72529dd4f87294a6c0724dee2ea31b3fcde44310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 38/44] fix: reading a row with more fields than the vault has
 keys read past the end of the keys

---
 Source/Vault.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 2bb2351..2d1ae5c 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -103,6 +103,9 @@ namespace mvlt
                     // Store all keys values to record
                     for (const auto& recordPole : record)
                     {
+                        // Skip record poles without keys
+                        if (keyOrderIt == KeysOrder.end()) break;
+
                         // Set last record pole
                         isCorrectRecordInFile = newRecord->SetDataFromString(*keyOrderIt, recordPole);
 
-- 
2.43.0


From e28695d32c3bced794dd17b834b782223df76dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:20 +0000
Subject: [PATCH 39/44] fix: errors while reading a file were not reported and
 reading a directory never ended

---
 Source/CsvParser/CsvParser.cpp        | 12 ++++++++++++
 Source/CsvParser/CsvParser.h          |  7 +++++++
 Source/CsvParser/StreamFileReader.cpp | 24 +++++++++++++++++++++++-
 Source/CsvParser/StreamFileReader.h   | 10 ++++++++++
 Source/Vault.cpp                      |  2 +-
 5 files changed, 53 insertions(+), 2 deletions(-)

diff --git a/Source/CsvParser/CsvParser.cpp b/Source/CsvParser/CsvParser.cpp
index c987d04..c1b1cd7 100644
--- a/Source/CsvParser/CsvParser.cpp
+++ b/Source/CsvParser/CsvParser.cpp
@@ -39,6 +39,11 @@ namespace mvlt
         return FileReader.Open(fileName);
     }
 
+    bool CsvParser::IsError() const noexcept
+    {
+        return FileReader.IsError();
+    }
+
     bool CsvParser::GetNextVector(std::vector<std::string>& vectorWithNext, const char& separator) noexcept
     {
         // Clear old data
@@ -118,6 +123,13 @@ namespace mvlt
             }
         }
 
+        // The rest of the record could not be read
+        if (FileReader.IsError())
+        {
+            vectorWithNext.clear();
+            return false;
+        }
+
         // Add last record
         if (isPole || !recordPole.empty())
             vectorWithNext.emplace_back(std::move(recordPole));
diff --git a/Source/CsvParser/CsvParser.h b/Source/CsvParser/CsvParser.h
index 6d838c3..f00d99c 100644
--- a/Source/CsvParser/CsvParser.h
+++ b/Source/CsvParser/CsvParser.h
@@ -87,6 +87,13 @@ namespace mvlt
         */
         bool OpenFile(const std::string& fileName) noexcept;
 
+        /**
+            \brief A method for checking whether an error occurred while reading the file
+
+            \return true if the file could not be read, otherwise returns false
+        */
+        bool IsError() const noexcept;
+
         /**
             \brief The method for getting the next record in the file. It works by analogy with generators in Python
 
diff --git a/Source/CsvParser/StreamFileReader.cpp b/Source/CsvParser/StreamFileReader.cpp
index a5567a8..d760b23 100644
--- a/Source/CsvParser/StreamFileReader.cpp
+++ b/Source/CsvParser/StreamFileReader.cpp
@@ -18,6 +18,13 @@ namespace mvlt
         FileSize = File.tellg();
         File.seekg(0);
 
+        if (FileSize < 0 || !File)
+        {
+            FileSize = 0;
+            IsReadError = true;
+            return false;
+        }
+
         if (FileSize > 0)
         {
             if (FileSize > BIG_FILE_SIZE)
@@ -35,6 +42,12 @@ namespace mvlt
                 if (FileSize > 1)
                     NextChar = Data[1];
             }
+
+            if (!File)
+            {
+                IsReadError = true;
+                return false;
+            }
         }
         
         return true; 
@@ -45,10 +58,17 @@ namespace mvlt
         return File.is_open();
     }
 
+    bool StreamFileReader::IsError() const noexcept
+    {
+        return IsReadError;
+    }
+
     bool StreamFileReader::IsEnd() const noexcept
     {
         bool res = false;
 
+        if (IsReadError) return res;
+
         if (Data == nullptr)
         {
             if (FilePos + ChunkPos <= FileSize)
@@ -100,9 +120,11 @@ namespace mvlt
 
                     if (FileSize - FilePos > FILE_BLOCK_SIZE)
                         File.read(DataChunk, FILE_BLOCK_SIZE);
-                    else
+                    else if (FileSize > FilePos)
                         File.read(DataChunk, FileSize - FilePos);
 
+                    if (!File) IsReadError = true;
+
                     ChunkPos = 0;
                 }
 
diff --git a/Source/CsvParser/StreamFileReader.h b/Source/CsvParser/StreamFileReader.h
index 6c5fb50..fac8091 100644
--- a/Source/CsvParser/StreamFileReader.h
+++ b/Source/CsvParser/StreamFileReader.h
@@ -48,6 +48,9 @@ namespace mvlt
         // File chunk
         char DataChunk[FILE_BLOCK_SIZE] = {0};
 
+        // Reading error flag
+        bool IsReadError = false;
+
         // Pointer to store little files
         char* Data = nullptr;
 
@@ -111,6 +114,13 @@ namespace mvlt
         */
         bool IsOpen() const noexcept;
 
+        /**
+            \brief A method for checking whether an error occurred while reading the file
+
+            \return true if the file could not be read, otherwise returns false
+        */
+        bool IsError() const noexcept;
+
         /**
             \brief A method for checking if a file has been read
 
diff --git a/Source/Vault.cpp b/Source/Vault.cpp
index 2d1ae5c..a7886f8 100644
--- a/Source/Vault.cpp
+++ b/Source/Vault.cpp
@@ -182,7 +182,7 @@ namespace mvlt
             }
         }
 
-        return true;
+        return !parser.IsError();
     }
 
     Vault* Vault::GetRecordsVault() const noexcept
-- 
2.43.0


From 77d513deac88341f1c9e241a530d9eb9c5c2dd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:52 +0000
Subject: [PATCH 40/44] fix: threads requesting into sets of each other's
 vaults deadlocked

---
 Source/Vault.hpp          | 12 ++++++++----
 Source/VaultRecordSet.cpp |  3 +++
 Source/VaultRecordSet.hpp | 12 ++++++++----
 3 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index 879c8ed..a70433a 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -279,6 +279,10 @@ namespace mvlt
 
         VaultOperationResult res;
 
+        // Detach vaultRecordSet from another Vault before locking this one to never hold the locks of two Vaults
+        if (VaultDerivedClass == VaultDerivedClasses::VaultBase && vaultRecordSet.ParentVault != this)
+            vaultRecordSet.Reset();
+
         // Lock Vault to write because vaultRecordSet and the records dependent sets will be changed
         WriteLock<RecursiveReadWriteMutex> writeLock(RecursiveReadWriteMtx);
 
@@ -291,8 +295,6 @@ namespace mvlt
             // Remove old data from vaultRecordSet
             if (vaultRecordSet.ParentVault != this)
             {
-                vaultRecordSet.Reset();
-
                 // Set new parent vault to vaultRecordSet
                 vaultRecordSet.ParentVault = const_cast<Vault*>(this);
 
@@ -906,6 +908,10 @@ namespace mvlt
         res.IsOperationSuccess = true;
         res.ResultCode = VaultOperationResultCode::Success;
 
+        // Detach vaultRecordSet from another Vault before locking this one to never hold the locks of two Vaults
+        if (VaultDerivedClass == VaultDerivedClasses::VaultBase && vaultRecordSet.ParentVault != this)
+            vaultRecordSet.Reset();
+
         // Lock Vault to write because vaultRecordSet and the records dependent sets will be changed
         WriteLock<RecursiveReadWriteMutex> writeLock(RecursiveReadWriteMtx);
 
@@ -918,8 +924,6 @@ namespace mvlt
             // Remove old data from vaultRecordSet
             if (vaultRecordSet.ParentVault != this)
             {
-                vaultRecordSet.Reset();
-
                 // Set new parent vault to vaultRecordSet
                 vaultRecordSet.ParentVault = const_cast<Vault*>(this);
 
diff --git a/Source/VaultRecordSet.cpp b/Source/VaultRecordSet.cpp
index 4379409..7516a35 100644
--- a/Source/VaultRecordSet.cpp
+++ b/Source/VaultRecordSet.cpp
@@ -612,6 +612,9 @@ namespace mvlt
         }
         else
         {
+            // Detach res from another Vault before locking this one to never hold the locks of two Vaults
+            if (res.ParentVault != a.ParentVault) res.Reset();
+
             WriteLock<RecursiveReadWriteMutex> writeLock(a.ParentVault->RecursiveReadWriteMtx);
 
             res = a;
diff --git a/Source/VaultRecordSet.hpp b/Source/VaultRecordSet.hpp
index 7dc381e..ca323b1 100644
--- a/Source/VaultRecordSet.hpp
+++ b/Source/VaultRecordSet.hpp
@@ -23,13 +23,15 @@ namespace mvlt
             }
             else
             {
+                // Detach vaultRecordSet from another Vault before locking this one to never hold the locks of two Vaults
+                if (vaultRecordSet.ParentVault != ParentVault)
+                    vaultRecordSet.Reset();
+
                 WriteLock<RecursiveReadWriteMutex> writeLock(ParentVault->RecursiveReadWriteMtx);
 
                 // Remove old data from vaultRecordSet
                 if (vaultRecordSet.ParentVault != ParentVault)
                 {
-                    vaultRecordSet.Reset();
-
                     // Set new parent vault to vaultRecordSet
                     vaultRecordSet.ParentVault = ParentVault;
 
@@ -208,13 +210,15 @@ namespace mvlt
             }
             else
             {
+                // Detach vaultRecordSet from another Vault before locking this one to never hold the locks of two Vaults
+                if (vaultRecordSet.ParentVault != ParentVault)
+                    vaultRecordSet.Reset();
+
                 WriteLock<RecursiveReadWriteMutex> writeLock(ParentVault->RecursiveReadWriteMtx);
 
                 // Remove old data from vaultRecordSet
                 if (vaultRecordSet.ParentVault != ParentVault)
                 {
-                    vaultRecordSet.Reset();
-
                     // Set new parent vault to vaultRecordSet
                     vaultRecordSet.ParentVault = ParentVault;
 
-- 
2.43.0


From 6b1a4db0a188c07cc291e5772f7415a8d5aff89c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:34 +0000
Subject: [PATCH 41/44] fix: requests did not compile for key types with only
 the documented operators

---
 Source/Vault.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Vault.hpp b/Source/Vault.hpp
index a70433a..35f1de8 100644
--- a/Source/Vault.hpp
+++ b/Source/Vault.hpp
@@ -226,7 +226,7 @@ namespace mvlt
                 break;
             
             case VaultRequestType::Interval:
-                if (beginKeyValue > endKeyValue || (beginKeyValue == endKeyValue && (isIncludeBeginKeyValue == false || isIncludeEndKeyValue == false)))
+                if (endKeyValue < beginKeyValue || (beginKeyValue == endKeyValue && (isIncludeBeginKeyValue == false || isIncludeEndKeyValue == false)))
                 {
                     startIt = TtoVaultRecordMap->End();
                     endIt = TtoVaultRecordMap->End();
-- 
2.43.0


From c38996e9e3af959fb9a7d35ac1f64fd9f1332b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:54 +0000
Subject: [PATCH 42/44] fix: builds without NDEBUG used a destroyed call trace
 when global objects were destroyed

---
 Source/BackTrace/BackTrace.cpp | 32 +++++++++++++++++++++-----------
 Source/BackTrace/BackTrace.h   |  5 +++++
 2 files changed, 26 insertions(+), 11 deletions(-)

diff --git a/Source/BackTrace/BackTrace.cpp b/Source/BackTrace/BackTrace.cpp
index 351431f..b758b2d 100644
--- a/Source/BackTrace/BackTrace.cpp
+++ b/Source/BackTrace/BackTrace.cpp
@@ -2,8 +2,9 @@
 
 namespace mvlt
 {
-    /// Thread local variable to store functions call trace
-    thread_local std::vector<std::string> Trace;
+    /// Thread local variable to store the last entered function, functions call trace is a list of loggers.
+    /// It is a plain pointer because static objects are used after thread local objects were destroyed
+    thread_local const TraceLogger* Trace = nullptr;
 
     BackTraceFormat TraceFormat = BackTraceFormat::Compact;
 
@@ -20,14 +21,21 @@ namespace mvlt
         {
             void* array[TRACE_MAX];
             size_t traceSize;
-            std::size_t i = Trace.size() + 2;
+            std::size_t i = 2;
+
+            // Find the first entered function and count all of them
+            const TraceLogger* firstLogger = nullptr;
+            for (const TraceLogger* logger = Trace; logger != nullptr; logger = logger->Caller)
+            {
+                firstLogger = logger;
+                ++i;
+            }
 
             traceSize = backtrace(array, TRACE_MAX);
 
             if (TraceFormat == BackTraceFormat::Compact)
             {
                 traceSize = i + 1;
-                Trace.push_back(Trace.front());
             }
 
             for (; i < traceSize; ++i)
@@ -50,11 +58,10 @@ namespace mvlt
                 std::stringstream sstream;
                 sstream << std::hex << offset;
 
-                if (!Trace.empty())
+                if (firstLogger != nullptr)
                 {
                     std::cout << "\t";
-                    std::cout << "\x1B[33m" << Trace.back() << "\033[0m from " << std::flush;
-                    Trace.pop_back();
+                    std::cout << "\x1B[33m" << firstLogger->FuncName << "\033[0m from " << std::flush;
                 }
                 else std::cout << "\t" << std::flush;
 
@@ -72,20 +79,23 @@ namespace mvlt
     {
         if (TraceFormat != BackTraceFormat::None)
         {
-            std::cout << "\t\x1B[33m" << Trace.front() 
+            const TraceLogger* firstLogger = Trace;
+            while (firstLogger != nullptr && firstLogger->Caller != nullptr) firstLogger = firstLogger->Caller;
+
+            std::cout << "\t\x1B[33m" << (firstLogger != nullptr ? firstLogger->FuncName : "")
                 << "\033[0m from (File name and file line not available on this machine! If you are on linux try to download libexecinfo and reconfigure project. See Checkers/BackTrace)" << std::endl;
         }
     }
 
 #endif
 
-    TraceLogger::TraceLogger(const std::string& funcName) noexcept : FuncName(funcName)
+    TraceLogger::TraceLogger(const std::string& funcName) noexcept : FuncName(funcName), Caller(Trace)
     {
-        Trace.emplace_back(FuncName);
+        Trace = this;
     }
 
     TraceLogger::~TraceLogger() noexcept
     {
-        if (FuncName == Trace.back()) Trace.pop_back();
+        Trace = Caller;
     }
 }
\ No newline at end of file
diff --git a/Source/BackTrace/BackTrace.h b/Source/BackTrace/BackTrace.h
index 170d6c8..3daacc3 100644
--- a/Source/BackTrace/BackTrace.h
+++ b/Source/BackTrace/BackTrace.h
@@ -63,6 +63,11 @@ namespace mvlt
     private:
         // Function name
         std::string FuncName;
+
+        // Logger of the function from which this function was called
+        const TraceLogger* Caller;
+
+        friend void PrintBackTrace() noexcept;
     public:
         /// \brief Default constructor
         TraceLogger() noexcept = delete;
-- 
2.43.0


From 61cacbb02455bcca22175033d9cd85d1504226d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:54 +0000
Subject: [PATCH 43/44] fix: error reports used a program path that was not
 terminated

---
 Source/BackTrace/BackTrace.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/BackTrace/BackTrace.cpp b/Source/BackTrace/BackTrace.cpp
index b758b2d..51c8106 100644
--- a/Source/BackTrace/BackTrace.cpp
+++ b/Source/BackTrace/BackTrace.cpp
@@ -54,7 +54,7 @@ namespace mvlt
                 char buf[BUFSIZ];
 
                 // codechecker_intentional [all] suppress
-                std::size_t readed = readlink("/proc/self/exe", buf, BUFSIZ);
+                ssize_t readed = readlink("/proc/self/exe", buf, BUFSIZ);
                 std::stringstream sstream;
                 sstream << std::hex << offset;
 
@@ -65,7 +65,7 @@ namespace mvlt
                 }
                 else std::cout << "\t" << std::flush;
 
-                std::string command = "addr2line -e " + std::string(buf) + " " + sstream.str();
+                std::string command = "addr2line -e " + std::string(buf, readed > 0 ? readed : 0) + " " + sstream.str();
 
                 // codechecker_intentional [all] its not a problem to use system because it is not input from user and it is only for debug
                 int res = system(command.c_str());
-- 
2.43.0


From 09170a2ea408fa51c1008f358364d1d359962dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:54 +0000
Subject: [PATCH 44/44] fix: error reports read beyond the frames of the call
 stack when functions were inlined

---
 Source/BackTrace/BackTrace.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Source/BackTrace/BackTrace.cpp b/Source/BackTrace/BackTrace.cpp
index 51c8106..f63c999 100644
--- a/Source/BackTrace/BackTrace.cpp
+++ b/Source/BackTrace/BackTrace.cpp
@@ -35,14 +35,16 @@ namespace mvlt
 
             if (TraceFormat == BackTraceFormat::Compact)
             {
-                traceSize = i + 1;
+                // Inlined functions do not have their own frames
+                if (traceSize > i + 1) traceSize = i + 1;
+                if (traceSize <= i && firstLogger != nullptr) std::cout << "\t\x1B[33m" << firstLogger->FuncName << "\033[0m" << std::endl;
             }
 
             for (; i < traceSize; ++i)
             {
                 Dl_info info;
                 link_map* extra_info;
-                dladdr1(array[i], &info, reinterpret_cast<void**>(&extra_info), RTLD_DL_LINKMAP);
+                if (dladdr1(array[i], &info, reinterpret_cast<void**>(&extra_info), RTLD_DL_LINKMAP) == 0) continue;
                 // codechecker_intentional [all] no need to optimize it
                 info.dli_fbase = (void*)extra_info->l_addr;
 
-- 
2.43.0

