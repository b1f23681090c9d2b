From 8d3a3446dfefe4a63b051266dc5db21e3ae70aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 01/71] fix: require a permission for the ReportMarketFee RPC
 so it can be called

---
 internal/interfaces/grpc/permissions/permissions.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/interfaces/grpc/permissions/permissions.go b/internal/interfaces/grpc/permissions/permissions.go
index ac9b9fa..f26488c 100644
--- a/internal/interfaces/grpc/permissions/permissions.go
+++ b/internal/interfaces/grpc/permissions/permissions.go
@@ -251,6 +251,10 @@ func AllPermissionsByMethod() map[string][]bakery.Op {
 			Entity: EntityMarket,
 			Action: "write",
 		}},
+		"/Operator/ReportMarketFee": {{
+			Entity: EntityMarket,
+			Action: "read",
+		}},
 		"/Operator/UpdateMarketPrice": {{
 			Entity: EntityPrice,
 			Action: "write",
-- 
2.43.0


From 3809cd042a4fd33bd3931556125582cc7d646162 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:38 +0000
Subject: [PATCH 02/71] fix: do not serve without authentication when the
 macaroon service cannot be created

---
 internal/interfaces/grpc/service.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/interfaces/grpc/service.go b/internal/interfaces/grpc/service.go
index 24e7206..d4c52af 100644
--- a/internal/interfaces/grpc/service.go
+++ b/internal/interfaces/grpc/service.go
@@ -179,9 +179,13 @@ func NewService(opts ServiceOpts) (interfaces.Service, error) {
 
 	var macaroonSvc *macaroons.Service
 	if !opts.NoMacaroons {
-		macaroonSvc, _ = macaroons.NewService(
+		var err error
+		macaroonSvc, err = macaroons.NewService(
 			opts.dbDatadir(), Location, DBFile, false, macaroons.IPLockChecker,
 		)
+		if err != nil {
+			return nil, fmt.Errorf("failed to create macaroon service: %s", err)
+		}
 		if err := generateOperatorTLSKeyCert(
 			opts.tlsDatadir(), opts.OperatorExtraIPs, opts.OperatorExtraDomains,
 		); err != nil {
-- 
2.43.0


From da5382b2d127362c9703d5e2092322e12312b330 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:14 +0000
Subject: [PATCH 03/71] fix: hold the key mutex when changing the macaroon
 store password or root key

---
 pkg/macaroons/store.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/macaroons/store.go b/pkg/macaroons/store.go
index 64b55dc..d21432c 100644
--- a/pkg/macaroons/store.go
+++ b/pkg/macaroons/store.go
@@ -141,6 +141,9 @@ func (r *RootKeyStorage) CreateUnlock(password *[]byte) error {
 // ChangePassword decrypts the macaroon root key with the old password and then
 // encrypts it again with the new password.
 func (r *RootKeyStorage) ChangePassword(oldPw, newPw []byte) error {
+	r.encKeyMtx.Lock()
+	defer r.encKeyMtx.Unlock()
+
 	// We need the store to already be unlocked. With this we can make sure
 	// that there already is a key in the DB.
 	if r.encKey == nil {
@@ -313,6 +316,9 @@ func (r *RootKeyStorage) RootKey(ctx context.Context) ([]byte, []byte, error) {
 // GenerateNewRootKey generates a new macaroon root key, replacing the previous
 // root key if it existed.
 func (r *RootKeyStorage) GenerateNewRootKey() error {
+	r.encKeyMtx.RLock()
+	defer r.encKeyMtx.RUnlock()
+
 	// We need the store to already be unlocked. With this we can make sure
 	// that there already is a key in the DB that can be replaced.
 	if r.encKey == nil {
-- 
2.43.0


From 1f171606b9db2a85ee5aad22205ae613c89be13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:23 +0000
Subject: [PATCH 04/71] fix: change the secure store password in one
 transaction, checking every error

---
 pkg/securestore/bolt/store.go | 147 ++++++++++++----------------------
 1 file changed, 52 insertions(+), 95 deletions(-)

diff --git a/pkg/securestore/bolt/store.go b/pkg/securestore/bolt/store.go
index 6a85c2a..ffc35e5 100644
--- a/pkg/securestore/bolt/store.go
+++ b/pkg/securestore/bolt/store.go
@@ -2,10 +2,8 @@ package boltsecurestore
 
 import (
 	"bytes"
-	"fmt"
 	"os"
 	"path/filepath"
-	"strings"
 	"sync"
 
 	"github.com/btcsuite/btcwallet/snacl"
@@ -152,9 +150,11 @@ func (s *boltSecureStorage) ChangePassword(oldPw, newPw []byte) error {
 		return err
 	}
 
-	// Check that old password is correct.
-	if err := kvdb.View(s.db, func(tx kvdb.RTx) error {
-		bucket := tx.ReadBucket(RootKeyBucketName)
+	// Check the old password, encrypt the whole DB with the new one and store
+	// the new encryption key parameters all at once, so that a failure at any
+	// point leaves the DB readable with the old password.
+	if err := kvdb.Update(s.db, func(tx kvdb.RwTx) error {
+		bucket := tx.ReadWriteBucket(RootKeyBucketName)
 		if bucket == nil {
 			return ErrRootKeyBucketNotFound
 		}
@@ -170,32 +170,21 @@ func (s *boltSecureStorage) ChangePassword(oldPw, newPw []byte) error {
 			return err
 		}
 
-		return encKeyOld.DeriveKey(&oldPw)
-	}, func() {}); err != nil {
-		return err
-	}
-
-	// Efficiently decrypt DB with old password and encrypt is again with the
-	// new one.
-	if err := s.updateEncryptedDb(encKeyNew); err != nil {
-		return err
-	}
-
-	// Finally, store the new encryption key parameters in the DB
-	// as well.
-	return kvdb.Update(s.db, func(tx kvdb.RwTx) error {
-		bucket := tx.ReadWriteBucket(RootKeyBucketName)
-		if bucket == nil {
-			return ErrRootKeyBucketNotFound
+		if err := encKeyOld.DeriveKey(&oldPw); err != nil {
+			return err
 		}
 
-		if err := bucket.Put(encryptionKeyID, encKeyNew.Marshal()); err != nil {
+		if err := reencryptBucket(bucket, encKeyOld, encKeyNew); err != nil {
 			return err
 		}
 
-		s.encKey = encKeyNew
-		return nil
-	}, func() {})
+		return bucket.Put(encryptionKeyID, encKeyNew.Marshal())
+	}, func() {}); err != nil {
+		return err
+	}
+
+	s.encKey = encKeyNew
+	return nil
 }
 
 // CreateBucket creates a nested bucket into the root one.
@@ -440,84 +429,52 @@ func (s *boltSecureStorage) RemoveBucket(key []byte) error {
 	}, func() {})
 }
 
-type bucketData struct {
-	bucketKey []byte
-	data      map[string][]byte
-	err       error
-}
-
-func (s *boltSecureStorage) updateEncryptedDb(newKey *snacl.SecretKey) error {
-	buckets, err := s.ListBuckets()
-	if err != nil {
+// reencryptBucket decrypts all values of the given bucket, and of those nested
+// into it, with the old key and encrypts them with the new one.
+func reencryptBucket(
+	bucket kvdb.RwBucket, oldKey, newKey *snacl.SecretKey,
+) error {
+	values := make(map[string][]byte)
+	nestedBuckets := make([][]byte, 0)
+
+	// The bucket must not be modified while iterating over its entries.
+	if err := bucket.ForEach(func(k, v []byte) error {
+		if v == nil {
+			nestedBuckets = append(nestedBuckets, append([]byte{}, k...))
+			return nil
+		}
+		if bytes.Equal(k, encryptionKeyID) {
+			return nil
+		}
+		value, err := oldKey.Decrypt(v)
+		if err != nil {
+			return err
+		}
+		values[string(k)] = value
+		return nil
+	}); err != nil {
 		return err
 	}
-	// nil key is used for the top level bucket
-	buckets = append(buckets, nil)
-
-	wg := &sync.WaitGroup{}
-	wg.Add(len(buckets))
-	chData := make(chan bucketData)
 
-	go func() {
-		wg.Wait()
-		close(chData)
-	}()
-
-	for _, bucketKey := range buckets {
-		go s.getAllFromBucket(bucketKey, wg, chData)
-	}
-
-	allBucketData := make(map[string][]byte)
-	for d := range chData {
-		if d.err != nil {
+	for key, value := range values {
+		encryptedValue, err := newKey.Encrypt(value)
+		if err != nil {
 			return err
 		}
-
-		for k, v := range d.data {
-			key := fmt.Sprintf("%s_%s", string(d.bucketKey), k)
-			allBucketData[key] = v
+		if err := bucket.Put([]byte(key), encryptedValue); err != nil {
+			return err
 		}
 	}
 
-	wg = &sync.WaitGroup{}
-	wg.Add(len(allBucketData))
-
-	for k := range allBucketData {
-		k := k
-		v := allBucketData[k]
-		go func() {
-			defer wg.Done()
-			kk := strings.Split(k, "_")
-			bucketKey := []byte(kk[0])
-			key := []byte(kk[1])
-
-			kvdb.Batch(s.db, func(tx kvdb.RwTx) error {
-				bucket := tx.ReadWriteBucket(RootKeyBucketName)
-				if len(bucketKey) > 0 {
-					bucket = bucket.NestedReadWriteBucket(bucketKey)
-				}
-
-				encryptedValue, _ := newKey.Encrypt(v)
-				bucket.Put(key, encryptedValue)
-				return nil
-			})
-		}()
+	for _, key := range nestedBuckets {
+		nestedBucket := bucket.NestedReadWriteBucket(key)
+		if nestedBucket == nil {
+			return ErrBucketNotFound
+		}
+		if err := reencryptBucket(nestedBucket, oldKey, newKey); err != nil {
+			return err
+		}
 	}
 
-	wg.Wait()
-
 	return nil
 }
-
-func (s *boltSecureStorage) getAllFromBucket(
-	key []byte, wg *sync.WaitGroup, chData chan bucketData,
-) {
-	defer wg.Done()
-
-	data, err := s.GetAllFromBucket(key)
-	if err != nil {
-		chData <- bucketData{err: err}
-		return
-	}
-	chData <- bucketData{bucketKey: key, data: data}
-}
-- 
2.43.0


From 8939beb53457d90fe6bd597785e6d0b91504f75d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 05/71] fix: guard the secure store's encryption key with its
 mutex everywhere

---
 pkg/securestore/bolt/store.go | 75 ++++++++++++++++++++++++++---------
 1 file changed, 57 insertions(+), 18 deletions(-)

diff --git a/pkg/securestore/bolt/store.go b/pkg/securestore/bolt/store.go
index ffc35e5..1236fe3 100644
--- a/pkg/securestore/bolt/store.go
+++ b/pkg/securestore/bolt/store.go
@@ -65,22 +65,28 @@ func NewSecureStorage(datadir, filename string) (securestore.SecureStorage, erro
 // IsLocked returns whether the store is locked by checking if the encryption
 // key is stored in-memory.
 func (s *boltSecureStorage) IsLocked() bool {
-	return s.encKey == nil
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	return s.isLocked()
 }
 
 // Lock eventually locks the store by flushing the in-memory encryption key.
 func (s *boltSecureStorage) Lock() {
-	if !s.IsLocked() {
-		s.encKey.Zero()
-		s.encKey = nil
-	}
+	s.encKeyMtx.Lock()
+	defer s.encKeyMtx.Unlock()
+
+	s.lock()
 }
 
 // CreateUnlock sets an encryption key if one is not already set, otherwise it
 // checks if the password is correct for the stored encryption key.
 func (s *boltSecureStorage) CreateUnlock(password *[]byte) error {
+	s.encKeyMtx.Lock()
+	defer s.encKeyMtx.Unlock()
+
 	// Is the store is already unlocked there's nothing to do here.
-	if !s.IsLocked() {
+	if !s.isLocked() {
 		return nil
 	}
 
@@ -88,9 +94,6 @@ func (s *boltSecureStorage) CreateUnlock(password *[]byte) error {
 		return ErrPasswordRequired
 	}
 
-	s.encKeyMtx.Lock()
-	defer s.encKeyMtx.Unlock()
-
 	return kvdb.Update(s.db, func(tx kvdb.RwTx) error {
 		bucket := tx.ReadWriteBucket(RootKeyBucketName)
 		if bucket == nil {
@@ -133,9 +136,12 @@ func (s *boltSecureStorage) CreateUnlock(password *[]byte) error {
 // ChangePassword decrypts the store (included the root key) with the old
 // password and then encrypts it again with the new password.
 func (s *boltSecureStorage) ChangePassword(oldPw, newPw []byte) error {
+	s.encKeyMtx.Lock()
+	defer s.encKeyMtx.Unlock()
+
 	// The store must be already unlocked. This ensures that there already is a
 	// key in the DB.
-	if s.IsLocked() {
+	if s.isLocked() {
 		return ErrStoreLocked
 	}
 
@@ -189,7 +195,10 @@ func (s *boltSecureStorage) ChangePassword(oldPw, newPw []byte) error {
 
 // CreateBucket creates a nested bucket into the root one.
 func (s *boltSecureStorage) CreateBucket(key []byte) error {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.isLocked() {
 		return ErrStoreLocked
 	}
 
@@ -213,7 +222,10 @@ func (s *boltSecureStorage) CreateBucket(key []byte) error {
 // AddToBucket stores the provided data encrypted into the given bucket.
 // If the bucket key is nil, the key/value entry is added to the root one.
 func (s *boltSecureStorage) AddToBucket(bucketKey, key, value []byte) error {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.isLocked() {
 		return ErrStoreLocked
 	}
 
@@ -254,7 +266,10 @@ func (s *boltSecureStorage) AddToBucket(bucketKey, key, value []byte) error {
 // GetFromBucket retrieves data for the given key and bucket. If the bucket key
 // is nil, data is retrieved from the root bucket.
 func (s *boltSecureStorage) GetFromBucket(bucketKey, key []byte) ([]byte, error) {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.isLocked() {
 		return nil, ErrStoreLocked
 	}
 
@@ -302,7 +317,10 @@ func (s *boltSecureStorage) GetFromBucket(bucketKey, key []byte) ([]byte, error)
 // GetAllFromBucket returns all data stored in the given bucket.
 // If the bucket key is nil
 func (s *boltSecureStorage) GetAllFromBucket(bucketKey []byte) (map[string][]byte, error) {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.isLocked() {
 		return nil, ErrStoreLocked
 	}
 
@@ -339,7 +357,10 @@ func (s *boltSecureStorage) GetAllFromBucket(bucketKey []byte) (map[string][]byt
 }
 
 func (s *boltSecureStorage) ListBuckets() ([][]byte, error) {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.isLocked() {
 		return nil, ErrStoreLocked
 	}
 
@@ -371,7 +392,7 @@ func (s *boltSecureStorage) Close() error {
 	s.encKeyMtx.Lock()
 	defer s.encKeyMtx.Unlock()
 
-	s.Lock()
+	s.lock()
 
 	return s.db.Close()
 }
@@ -379,7 +400,10 @@ func (s *boltSecureStorage) Close() error {
 // RemoveFromBucket removes the entry identified by the given key for the given
 // bucket. If bucket key is nil, the entry is removed from the root bucket.
 func (s *boltSecureStorage) RemoveFromBucket(bucketKey, key []byte) error {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.isLocked() {
 		return ErrStoreLocked
 	}
 
@@ -408,7 +432,10 @@ func (s *boltSecureStorage) RemoveFromBucket(bucketKey, key []byte) error {
 }
 
 func (s *boltSecureStorage) RemoveBucket(key []byte) error {
-	if s.IsLocked() {
+	s.encKeyMtx.RLock()
+	defer s.encKeyMtx.RUnlock()
+
+	if s.isLocked() {
 		return ErrStoreLocked
 	}
 
@@ -429,6 +456,18 @@ func (s *boltSecureStorage) RemoveBucket(key []byte) error {
 	}, func() {})
 }
 
+// isLocked and lock must be called with the encryption key mutex held.
+func (s *boltSecureStorage) isLocked() bool {
+	return s.encKey == nil
+}
+
+func (s *boltSecureStorage) lock() {
+	if !s.isLocked() {
+		s.encKey.Zero()
+		s.encKey = nil
+	}
+}
+
 // reencryptBucket decrypts all values of the given bucket, and of those nested
 // into it, with the old key and encrypts them with the new one.
 func reencryptBucket(
-- 
2.43.0


From 7e064a3f998ad90795cce9566ff5ca5f8df5a7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:10 +0000
Subject: [PATCH 06/71] fix: reject trade proposals whose assets are not those
 of the market

---
 internal/core/application/trade_service.go | 30 ++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index f912673..f8ffc26 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -276,6 +276,10 @@ func (t *tradeService) TradePropose(
 		return nil, nil, 0, domain.ErrMarketInvalidQuoteAsset
 	}
 
+	if market.BaseAsset != t.marketBaseAsset {
+		return nil, nil, 0, ErrMarketNotExist
+	}
+
 	vault, err := t.repoManager.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
 	if err != nil {
 		log.Debugf("error while retrieving vault: %s", err)
@@ -349,6 +353,16 @@ func (t *tradeService) TradePropose(
 		goto end
 	}
 
+	if !isValidTradePair(swapRequest, tradeType, mkt) {
+		trade.Fail(
+			swapRequest.GetId(),
+			int(pkgswap.ErrCodeInvalidSwapRequest),
+			"assets do not match those of the market",
+		)
+		swapFail = trade.SwapFailMessage()
+		goto end
+	}
+
 	if !isValidTradePrice(swapRequest, tradeType, mkt, marketUnspents, t.priceSlippage) {
 		trade.Fail(
 			swapRequest.GetId(),
@@ -881,6 +895,22 @@ func getBalanceByAsset(unspents []domain.Unspent) map[string]uint64 {
 	return balances
 }
 
+// isValidTradePair checks that the assets of the swap are those of the market,
+// traded in the direction of the given trade type.
+func isValidTradePair(
+	swapRequest domain.SwapRequest,
+	tradeType int,
+	market *domain.Market,
+) bool {
+	assetSent, assetReceived := market.QuoteAsset, market.BaseAsset
+	if tradeType == TradeSell {
+		assetSent, assetReceived = market.BaseAsset, market.QuoteAsset
+	}
+
+	return swapRequest.GetAssetP() == assetSent &&
+		swapRequest.GetAssetR() == assetReceived
+}
+
 // isValidPrice checks that the amounts of the trade are valid by
 // making a preview of each counter amounts of the swap given the
 // current price of the market.
-- 
2.43.0


From 3c8b1ad36ce09fdb6ecc5d5e67f5f147bdebc41c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:16 +0000
Subject: [PATCH 07/71] fix: do not fill a trade proposal when a wallet address
 cannot be derived

---
 internal/core/application/trade_service.go | 24 ++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index f8ffc26..43dc219 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -374,11 +374,27 @@ func (t *tradeService) TradePropose(
 	}
 
 	// derive output and change address for market, and change address for fee account
-	outInfo, _ = vault.DeriveNextExternalAddressForAccount(marketAccountIndex)
-	changeInfo, _ = vault.DeriveNextInternalAddressForAccount(marketAccountIndex)
-	feeChangeInfo, _ = vault.DeriveNextInternalAddressForAccount(domain.FeeAccount)
+	outInfo, err = vault.DeriveNextExternalAddressForAccount(marketAccountIndex)
+	if err != nil {
+		log.Debugf("error while deriving market address: %s", err)
+		return nil, nil, 0, ErrServiceUnavailable
+	}
+	changeInfo, err = vault.DeriveNextInternalAddressForAccount(marketAccountIndex)
+	if err != nil {
+		log.Debugf("error while deriving market change address: %s", err)
+		return nil, nil, 0, ErrServiceUnavailable
+	}
+	feeChangeInfo, err = vault.DeriveNextInternalAddressForAccount(domain.FeeAccount)
+	if err != nil {
+		log.Debugf("error while deriving fee change address: %s", err)
+		return nil, nil, 0, ErrServiceUnavailable
+	}
 
-	mnemonic, _ = vault.GetMnemonicSafe()
+	mnemonic, err = vault.GetMnemonicSafe()
+	if err != nil {
+		log.Debugf("error while retrieving mnemonic: %s", err)
+		return nil, nil, 0, ErrServiceUnavailable
+	}
 	fillProposalResult, err = TradeManager.FillProposal(FillProposalOpts{
 		Mnemonic:      mnemonic,
 		SwapRequest:   swapRequest,
-- 
2.43.0


From b52fbb0253f6172345b570013c3e71db56a9c214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:19 +0000
Subject: [PATCH 08/71] fix: never select the same unspents for two accepted
 trades

---
 internal/core/application/trade_service.go | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index 43dc219..45bcd24 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -5,6 +5,7 @@ import (
 	"encoding/hex"
 	"errors"
 	"fmt"
+	"sync"
 	"time"
 
 	"github.com/shopspring/decimal"
@@ -54,6 +55,9 @@ type tradeService struct {
 	expiryDuration     time.Duration
 	priceSlippage      decimal.Decimal
 	network            *network.Network
+
+	// proposalLock serializes the trade proposals.
+	proposalLock sync.Mutex
 }
 
 func NewTradeService(
@@ -280,6 +284,11 @@ func (t *tradeService) TradePropose(
 		return nil, nil, 0, ErrMarketNotExist
 	}
 
+	// proposals are processed one at time so that those accepted never share
+	// the unspents selected for funding the swaps
+	t.proposalLock.Lock()
+	defer t.proposalLock.Unlock()
+
 	vault, err := t.repoManager.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
 	if err != nil {
 		log.Debugf("error while retrieving vault: %s", err)
@@ -437,11 +446,16 @@ end:
 		log.Infof("trade with id %s accepted", trade.ID)
 
 		selectedUnspentKeys = getUnspentKeys(fillProposalResult.SelectedUnspents)
-		lockedUnspents, _ := t.repoManager.UnspentRepository().LockUnspents(
+		lockedUnspents, err := t.repoManager.UnspentRepository().LockUnspents(
 			ctx,
 			selectedUnspentKeys,
 			trade.ID,
 		)
+		if err != nil {
+			// the swap must not be accepted if its inputs are not reserved to it
+			log.WithError(err).Warn("unable to lock unspents of accepted trade")
+			return nil, nil, 0, ErrServiceUnavailable
+		}
 		log.Debugf("locked %d unspents", lockedUnspents)
 
 		// set timer for trade expiration
-- 
2.43.0


From 96d71d010650b7c222caf8de0f5f4f69cdba50c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:56 +0000
Subject: [PATCH 09/71] fix: do not share state between concurrent coin
 selections

---
 pkg/explorer/coinselection.go | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pkg/explorer/coinselection.go b/pkg/explorer/coinselection.go
index da9b4ca..9f0889b 100644
--- a/pkg/explorer/coinselection.go
+++ b/pkg/explorer/coinselection.go
@@ -105,22 +105,24 @@ func isIndexOccupied(i int, list []int) bool {
 	return false
 }
 
-var combination = []uint64{}
-
 //getCombination is calculating all combinations for 'size' the elements of src array
 // number of combination formula -> len(src)! / size! * (len(src) - size)!
 func getCombination(src []uint64, size int, offset int) [][]uint64 {
+	return getCombinationWithPrefix([]uint64{}, src, size, offset)
+}
+
+func getCombinationWithPrefix(
+	prefix, src []uint64, size int, offset int,
+) [][]uint64 {
 	result := [][]uint64{}
 	if size == 0 {
-		temp := make([]uint64, len(combination))
-		copy(temp, combination)
+		temp := make([]uint64, len(prefix))
+		copy(temp, prefix)
 		return append(result, temp)
 	}
 	for i := offset; i <= len(src)-size; i++ {
-		combination = append(combination, src[i])
-		temp := getCombination(src, size-1, i+1)
+		temp := getCombinationWithPrefix(append(prefix, src[i]), src, size-1, i+1)
 		result = append(result, temp...)
-		combination = combination[:len(combination)-1]
 	}
 	return result[:]
 }
-- 
2.43.0


From e26a028cb2c522c7785285cfd8adb9961a0bf417 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:43 +0000
Subject: [PATCH 10/71] fix: do not dereference missing swap messages or trades

---
 internal/core/application/trade_service.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index 45bcd24..66d230d 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -518,6 +518,10 @@ func (t *tradeService) TradeComplete(
 		return "", swapFailMsg, nil
 	}
 
+	if swapComplete == nil {
+		return "", nil, errors.New("missing swap complete or swap fail message")
+	}
+
 	return t.tradeComplete(ctx, *swapComplete)
 }
 
@@ -597,6 +601,9 @@ func (t *tradeService) tradeFail(
 	if err != nil {
 		return nil, err
 	}
+	if trade == nil {
+		return nil, fmt.Errorf("trade with swap id %s not found", swapID)
+	}
 
 	tradeID := trade.ID
 	if err := t.repoManager.TradeRepository().UpdateTrade(
@@ -676,7 +683,13 @@ func (t *tradeService) checkTradeExpiration(
 
 	// if the trade is expired it's required to unlock the unspents used as input
 	// and to bring the trade to failed status
-	trade, _ := t.repoManager.TradeRepository().GetTradeByTxID(ctx, tradeTxID)
+	trade, err := t.repoManager.TradeRepository().GetTradeByTxID(ctx, tradeTxID)
+	if err != nil || trade == nil {
+		log.WithError(err).Warnf(
+			"unable to check expiration of trade with tx id %s", tradeTxID,
+		)
+		return
+	}
 
 	if trade.IsExpired() {
 		t.blockchainListener.StopObserveTx(trade.TxID)
-- 
2.43.0


From 2fd5dd1abc07d2ee2f7ace6c1eb84f800ba6b01e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:22 +0000
Subject: [PATCH 11/71] fix: persist completed trades with a context that
 outlives the request

---
 internal/core/application/trade_service.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index 66d230d..1118780 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -568,6 +568,9 @@ func (t *tradeService) tradeComplete(
 	// this method will take care to retry to handle potential
 	// datastore conflicts (if any) at repository level
 	go func() {
+		// the context of the request is canceled once this has been served
+		ctx := context.Background()
+
 		if err := t.repoManager.TradeRepository().UpdateTrade(
 			ctx,
 			&trade.ID,
-- 
2.43.0


From 0e05c0065d6e03a2bb3d686154b992a57d5a1408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:22 +0000
Subject: [PATCH 12/71] fix: do not complete trades that failed or whose
 transaction cannot be finalized

---
 internal/core/domain/trade_service.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/internal/core/domain/trade_service.go b/internal/core/domain/trade_service.go
index 4a488a0..96766f9 100644
--- a/internal/core/domain/trade_service.go
+++ b/internal/core/domain/trade_service.go
@@ -5,6 +5,7 @@ import (
 	"time"
 
 	"github.com/shopspring/decimal"
+	pkgswap "github.com/tdex-network/tdex-daemon/pkg/swap"
 )
 
 // Propose brings an Empty trade to the Propose status by first validating the
@@ -108,7 +109,7 @@ func (t *Trade) Complete(tx string) (*CompleteResult, error) {
 		return &CompleteResult{OK: true, TxHex: t.TxHex, TxID: t.TxID}, nil
 	}
 
-	if !t.IsAccepted() {
+	if !t.IsAccepted() || t.IsRejected() {
 		return nil, ErrTradeMustBeAccepted
 	}
 
@@ -138,7 +139,17 @@ func (t *Trade) Complete(tx string) (*CompleteResult, error) {
 		txHex = tx
 	} else {
 		psetBase64 = tx
-		txHex, _ = PsetParserManager.GetTxHex(tx)
+
+		var txErr error
+		txHex, txErr = PsetParserManager.GetTxHex(tx)
+		if txErr != nil {
+			t.Fail(
+				t.SwapAccept.ID,
+				int(pkgswap.ErrCodeFailedToComplete),
+				txErr.Error(),
+			)
+			return &CompleteResult{OK: false}, nil
+		}
 	}
 
 	now := uint64(time.Now().Unix())
-- 
2.43.0


From 02b51297922118a71919b5d049138e35ea580c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:59 +0000
Subject: [PATCH 13/71] fix: do not panic on swap inputs referring to a missing
 prevout

---
 pkg/swap/request.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/swap/request.go b/pkg/swap/request.go
index 9f40cd1..c37d0dc 100644
--- a/pkg/swap/request.go
+++ b/pkg/swap/request.go
@@ -78,6 +78,10 @@ func checkTxAndBlindKeys(
 			prevout = in.WitnessUtxo
 		} else {
 			txinIndex := ptx.UnsignedTx.Inputs[i].Index
+			if in.NonWitnessUtxo == nil ||
+				int(txinIndex) >= len(in.NonWitnessUtxo.Outputs) {
+				return fmt.Errorf("missing prevout of partial input %d", i)
+			}
 			prevout = in.NonWitnessUtxo.Outputs[txinIndex]
 		}
 		if checkInputKeys {
-- 
2.43.0


From 0a6b347ee301f785a048065d3fe5f1ed23b5cfaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:19 +0000
Subject: [PATCH 14/71] fix: complete a trade only with the transaction that
 was accepted

---
 pkg/swap/complete.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/pkg/swap/complete.go b/pkg/swap/complete.go
index 1888bcd..21a6887 100644
--- a/pkg/swap/complete.go
+++ b/pkg/swap/complete.go
@@ -26,6 +26,12 @@ func Complete(complete CompleteOpts) (string, []byte, error) {
 		return "", nil, fmt.Errorf("unmarshal swap accept %w", err)
 	}
 
+	ptxAccept, err := pset.NewPsetFromBase64(msgAccept.GetTransaction())
+	if err != nil {
+		return "", nil, fmt.Errorf("accepted transaction is invalid")
+	}
+
+	var txHash string
 	if !isHex(complete.Transaction) {
 		ptx, err := pset.NewPsetFromBase64(complete.Transaction)
 		if err != nil {
@@ -39,10 +45,17 @@ func Complete(complete CompleteOpts) (string, []byte, error) {
 		if !ok {
 			return "", nil, fmt.Errorf("transaction contains invalid signatures")
 		}
+		txHash = ptx.UnsignedTx.TxHash().String()
 	} else {
-		if _, err := transaction.NewTxFromHex(complete.Transaction); err != nil {
+		tx, err := transaction.NewTxFromHex(complete.Transaction)
+		if err != nil {
 			return "", nil, fmt.Errorf("transaction in hex format is invalid")
 		}
+		txHash = tx.TxHash().String()
+	}
+
+	if txHash != ptxAccept.UnsignedTx.TxHash().String() {
+		return "", nil, fmt.Errorf("transaction is not the accepted one")
 	}
 
 	randomID := randstr.Hex(8)
-- 
2.43.0


From 5862332365f4b7c8eecbbf8a0138ffa75ee63de3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:12 +0000
Subject: [PATCH 15/71] fix: do not report expired trades as completed

---
 internal/core/domain/trade_service.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/core/domain/trade_service.go b/internal/core/domain/trade_service.go
index 96766f9..a93465b 100644
--- a/internal/core/domain/trade_service.go
+++ b/internal/core/domain/trade_service.go
@@ -105,7 +105,7 @@ type CompleteResult struct {
 // be called before the trade expires, otherwise it won't be possible to
 // actually complete an accepted trade.
 func (t *Trade) Complete(tx string) (*CompleteResult, error) {
-	if t.Status.Code >= Completed {
+	if t.IsCompleted() || t.IsSettled() {
 		return &CompleteResult{OK: true, TxHex: t.TxHex, TxID: t.TxID}, nil
 	}
 
-- 
2.43.0


From 1abb503c6fad96f5915dcb8fd33df733e5cd7910 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 16/71] fix: do not fill proposals whose inputs cannot be
 unblinded

---
 internal/core/application/trade_service.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index 1118780..b2b14f5 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -773,11 +773,14 @@ func fillProposal(opts FillProposalOpts) (*FillProposalResult, error) {
 	// swap in order to get the full list of selected inputs
 	selectedUnspents := append(selectedUnspentsForSwap, psetWithFeesResult.SelectedUnspents...)
 
-	inputBlindingData, _, _ := wallet.ExtractBlindingDataFromTx(
+	inputBlindingData, _, err := wallet.ExtractBlindingDataFromTx(
 		opts.SwapRequest.GetTransaction(),
 		opts.SwapRequest.GetInputBlindingKey(),
 		nil,
 	)
+	if err != nil {
+		return nil, fmt.Errorf("failed to unblind inputs of swap: %s", err)
+	}
 
 	// get the indexes of the inputs of the tx to sign
 	existingInputs := len(inputBlindingData)
-- 
2.43.0


From cab76a0df8a8d12bf7b065420fa6755db71a1e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:11 +0000
Subject: [PATCH 17/71] fix: in-memory unspents of an empty address list are
 none, not all

---
 .../unspent_memory_repository_impl.go         | 38 +++++++++++--------
 1 file changed, 22 insertions(+), 16 deletions(-)

diff --git a/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go b/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go
index 2871252..e4f94bc 100644
--- a/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go
+++ b/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go
@@ -45,7 +45,7 @@ func (r UnspentRepositoryImpl) GetAvailableUnspents(_ context.Context) ([]domain
 	r.store.locker.RLock()
 	defer r.store.locker.RUnlock()
 
-	return r.getAvailableUnspents(nil), nil
+	return r.getUnspents(func(string) bool { return true }, false), nil
 }
 
 // GetAllUnspentsForAddresses ...
@@ -278,34 +278,40 @@ func (r UnspentRepositoryImpl) getUnlockedBalance(address string, assetHash stri
 }
 
 func (r UnspentRepositoryImpl) getUnspentsForAddresses(addresses []string) []domain.Unspent {
-	unspentsUnlocked := r.getUnspents(addresses, false)
-	unspentsLocked := r.getUnspents(addresses, true)
+	unspentsUnlocked := r.getUnspents(isOneOf(addresses), false)
+	unspentsLocked := r.getUnspents(isOneOf(addresses), true)
 	return append(unspentsUnlocked, unspentsLocked...)
 }
 
 func (r UnspentRepositoryImpl) getAvailableUnspents(addresses []string) []domain.Unspent {
-	return r.getUnspents(addresses, false)
+	return r.getUnspents(isOneOf(addresses), false)
 }
 
-func (r UnspentRepositoryImpl) getUnspents(addresses []string, isLocked bool) []domain.Unspent {
+func (r UnspentRepositoryImpl) getUnspents(
+	isIncluded func(address string) bool,
+	isLocked bool,
+) []domain.Unspent {
 	unspents := make([]domain.Unspent, 0)
 	for _, u := range r.store.unspents {
-		if !u.IsSpent() && u.IsLocked() == isLocked && u.IsConfirmed() {
-			if len(addresses) == 0 {
-				unspents = append(unspents, u)
-			} else {
-				for _, addr := range addresses {
-					if addr == u.Address {
-						unspents = append(unspents, u)
-						break
-					}
-				}
-			}
+		if !u.IsSpent() && u.IsLocked() == isLocked && u.IsConfirmed() &&
+			isIncluded(u.Address) {
+			unspents = append(unspents, u)
 		}
 	}
 	return unspents
 }
 
+func isOneOf(addresses []string) func(address string) bool {
+	return func(address string) bool {
+		for _, addr := range addresses {
+			if addr == address {
+				return true
+			}
+		}
+		return false
+	}
+}
+
 func (r UnspentRepositoryImpl) lockUnspents(
 	unspentKeys []domain.UnspentKey,
 	tradeID uuid.UUID,
-- 
2.43.0


From f163517ec9309f53561fc574e90b4514fbe3ac60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:11 +0000
Subject: [PATCH 18/71] fix: in-memory list of trades repeats the same trade

---
 .../storage/db/inmemory/trade_memory_repository_impl.go        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/infrastructure/storage/db/inmemory/trade_memory_repository_impl.go b/internal/infrastructure/storage/db/inmemory/trade_memory_repository_impl.go
index 5f4fad2..4638f82 100644
--- a/internal/infrastructure/storage/db/inmemory/trade_memory_repository_impl.go
+++ b/internal/infrastructure/storage/db/inmemory/trade_memory_repository_impl.go
@@ -133,7 +133,8 @@ func (r tradeRepositoryImpl) getOrCreateTrade(tradeID *uuid.UUID) (*domain.Trade
 
 func (r tradeRepositoryImpl) getAllTrades() ([]*domain.Trade, error) {
 	allTrades := make([]*domain.Trade, 0)
-	for _, trade := range r.store.trades {
+	for _, t := range r.store.trades {
+		trade := t
 		allTrades = append(allTrades, &trade)
 	}
 	return allTrades, nil
-- 
2.43.0


From ed6544b0b52308e9a414afcd5aec1cc3ff7f2520 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:11 +0000
Subject: [PATCH 19/71] fix: in-memory market deletion is not synchronized and
 leaves its asset behind

---
 .../storage/db/inmemory/market_memory_repository_impl.go  | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/internal/infrastructure/storage/db/inmemory/market_memory_repository_impl.go b/internal/infrastructure/storage/db/inmemory/market_memory_repository_impl.go
index f390bcb..5af659f 100644
--- a/internal/infrastructure/storage/db/inmemory/market_memory_repository_impl.go
+++ b/internal/infrastructure/storage/db/inmemory/market_memory_repository_impl.go
@@ -183,7 +183,15 @@ func (r *MarketRepositoryImpl) DeleteMarket(
 	_ context.Context,
 	accountIndex int,
 ) error {
+	r.store.locker.Lock()
+	defer r.store.locker.Unlock()
+
 	delete(r.store.markets, accountIndex)
+	for asset, index := range r.store.accountsByAsset {
+		if index == accountIndex {
+			delete(r.store.accountsByAsset, asset)
+		}
+	}
 
 	return nil
 }
-- 
2.43.0


From b2247debc8cbb3e52ae47949d94c24f3fa19f49b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:27 +0000
Subject: [PATCH 20/71] fix: in-memory updates of a missing market panic

---
 .../storage/db/inmemory/market_memory_repository_impl.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/internal/infrastructure/storage/db/inmemory/market_memory_repository_impl.go b/internal/infrastructure/storage/db/inmemory/market_memory_repository_impl.go
index 5af659f..b837f43 100644
--- a/internal/infrastructure/storage/db/inmemory/market_memory_repository_impl.go
+++ b/internal/infrastructure/storage/db/inmemory/market_memory_repository_impl.go
@@ -116,6 +116,9 @@ func (r MarketRepositoryImpl) OpenMarket(_ context.Context, quoteAsset string) e
 	if err != nil {
 		return err
 	}
+	if currentMarket == nil {
+		return ErrMarketNotFound
+	}
 
 	// We update the market status only if the market is closed.
 	if currentMarket.IsTradable() {
@@ -141,6 +144,9 @@ func (r MarketRepositoryImpl) CloseMarket(_ context.Context, quoteAsset string)
 	if err != nil {
 		return err
 	}
+	if currentMarket == nil {
+		return ErrMarketNotFound
+	}
 
 	// We update the market status only if the market is open.
 	if !currentMarket.IsTradable() {
@@ -165,6 +171,9 @@ func (r *MarketRepositoryImpl) UpdatePrices(_ context.Context, accountIndex int,
 	if err != nil {
 		return err
 	}
+	if market == nil {
+		return ErrMarketNotFound
+	}
 
 	err = market.ChangeBasePrice(prices.BasePrice)
 	if err != nil {
-- 
2.43.0


From b879d3177f1c74a56830b4bfce1d7b5230b8da6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:27 +0000
Subject: [PATCH 21/71] fix: failed and read-only badger transactions are never
 discarded

---
 internal/infrastructure/storage/db/badger/db_manager.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/infrastructure/storage/db/badger/db_manager.go b/internal/infrastructure/storage/db/badger/db_manager.go
index 1bf012d..2d794d2 100644
--- a/internal/infrastructure/storage/db/badger/db_manager.go
+++ b/internal/infrastructure/storage/db/badger/db_manager.go
@@ -179,6 +179,7 @@ func (d *repoManager) runTransaction(
 		tx, ctx := args.ctxMaker()
 		res, err := args.handler(ctx)
 		if err != nil {
+			tx.Discard()
 			if args.readOnly && isTransactionConflict(err) {
 				time.Sleep(50 * time.Millisecond)
 				continue
@@ -186,8 +187,11 @@ func (d *repoManager) runTransaction(
 			return nil, err
 		}
 
-		if !args.readOnly {
+		if args.readOnly {
+			tx.Discard()
+		} else {
 			if err := tx.Commit(); err != nil {
+				tx.Discard()
 				if !isTransactionConflict(err) {
 					return nil, err
 				}
-- 
2.43.0


From 62afec6fc2f1a15b38ce8d9dd480ee9ba59bfafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:27 +0000
Subject: [PATCH 22/71] fix: panic on confirmation of a transaction without
 stored trade

---
 internal/core/application/blockchain_listener.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/core/application/blockchain_listener.go b/internal/core/application/blockchain_listener.go
index 3ab7652..20b994c 100644
--- a/internal/core/application/blockchain_listener.go
+++ b/internal/core/application/blockchain_listener.go
@@ -170,6 +170,10 @@ func (b *blockchainListener) listenToEventChannel() {
 				log.Warnf("unable to find trade with id %s: %v", e.TxID, err)
 				break
 			}
+			if trade == nil {
+				log.Warnf("unable to find trade with tx id %s", e.TxID)
+				break
+			}
 
 			if err := b.settleTrade(&trade.ID, e); err != nil {
 				log.Warnf("trying to settle trade with id %s: %v", trade.ID, err)
-- 
2.43.0


From df77a840233d905b0eca19caff1ce339f582709f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:48 +0000
Subject: [PATCH 23/71] fix: badger update of a missing trade runs the update
 on nil

---
 .../infrastructure/storage/db/badger/trade_repository_impl.go  | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/infrastructure/storage/db/badger/trade_repository_impl.go b/internal/infrastructure/storage/db/badger/trade_repository_impl.go
index 1230932..e85bd68 100644
--- a/internal/infrastructure/storage/db/badger/trade_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/trade_repository_impl.go
@@ -103,6 +103,9 @@ func (t tradeRepositoryImpl) UpdateTrade(
 	if err != nil {
 		return err
 	}
+	if currentTrade == nil {
+		return ErrTradeNotFound
+	}
 
 	updatedTrade, err := updateFn(currentTrade)
 	if err != nil {
-- 
2.43.0


From a691439294253ebbe2a4e47e67472ccc37f502d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:31 +0000
Subject: [PATCH 24/71] fix: concurrent updates of the badger repositories
 overwrite each other

The read-modify-write operations of the repositories (UpdateMarket,
OpenMarket, CloseMarket, UpdateTrade, UpdateVault, SpendUnspents,
ConfirmUnspents) now run within a transaction, retried on conflicts, when
they're not already part of one.
---
 .../storage/db/badger/db_manager.go           |  29 +++++
 .../db/badger/market_repository_impl.go       | 102 +++++++++---------
 .../db/badger/trade_repository_impl.go        |  34 +++---
 .../db/badger/unspent_repository_impl.go      |  60 +++++------
 .../db/badger/vault_repository_impl.go        |  26 ++---
 5 files changed, 140 insertions(+), 111 deletions(-)

diff --git a/internal/infrastructure/storage/db/badger/db_manager.go b/internal/infrastructure/storage/db/badger/db_manager.go
index 2d794d2..6c321dd 100644
--- a/internal/infrastructure/storage/db/badger/db_manager.go
+++ b/internal/infrastructure/storage/db/badger/db_manager.go
@@ -209,6 +209,35 @@ func isTransactionConflict(err error) bool {
 	return err == badger.ErrConflict
 }
 
+// inTransaction runs the given handler within the transaction stored in the
+// context under the given key or, if there's none, within a new one of the
+// given store, that is retried in case of conflicts. It must be used for all
+// read-modify-write operations so that concurrent ones don't get lost.
+func inTransaction(
+	ctx context.Context,
+	store *badgerhold.Store,
+	key string,
+	handler func(ctx context.Context) error,
+) error {
+	if ctx.Value(key) != nil {
+		return handler(ctx)
+	}
+
+	for {
+		tx := store.Badger().NewTransaction(true)
+		err := handler(context.WithValue(ctx, key, tx))
+		if err == nil {
+			err = tx.Commit()
+		}
+		tx.Discard()
+		if isTransactionConflict(err) {
+			time.Sleep(50 * time.Millisecond)
+			continue
+		}
+		return err
+	}
+}
+
 // JSONEncode is a custom JSON based encoder for badger
 func JSONEncode(value interface{}) ([]byte, error) {
 	var buff bytes.Buffer
diff --git a/internal/infrastructure/storage/db/badger/market_repository_impl.go b/internal/infrastructure/storage/db/badger/market_repository_impl.go
index bdf23a9..55f4d3e 100644
--- a/internal/infrastructure/storage/db/badger/market_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/market_repository_impl.go
@@ -99,80 +99,86 @@ func (m marketRepositoryImpl) UpdateMarket(
 	accountIndex int,
 	updateFn func(m *domain.Market) (*domain.Market, error),
 ) error {
-	currentMarket, err := m.getMarket(ctx, accountIndex)
-	if err != nil {
-		return err
-	}
-	if currentMarket == nil {
-		return ErrMarketNotFound
-	}
+	return inTransaction(ctx, m.store, "tx", func(ctx context.Context) error {
+		currentMarket, err := m.getMarket(ctx, accountIndex)
+		if err != nil {
+			return err
+		}
+		if currentMarket == nil {
+			return ErrMarketNotFound
+		}
 
-	updatedMarket, err := updateFn(currentMarket)
-	if err != nil {
-		return err
-	}
+		updatedMarket, err := updateFn(currentMarket)
+		if err != nil {
+			return err
+		}
 
-	return m.updateMarket(ctx, accountIndex, *updatedMarket)
+		return m.updateMarket(ctx, accountIndex, *updatedMarket)
+	})
 }
 
 func (m marketRepositoryImpl) OpenMarket(
 	ctx context.Context,
 	quoteAsset string,
 ) error {
-	query := badgerhold.Where("QuoteAsset").Eq(quoteAsset)
-	markets, err := m.findMarkets(ctx, query)
-	if err != nil {
-		return err
-	}
-
-	if len(markets) > 0 {
-		market := markets[0]
-		if market.IsTradable() {
-			return nil
-		}
-
-		err = market.MakeTradable()
+	return inTransaction(ctx, m.store, "tx", func(ctx context.Context) error {
+		query := badgerhold.Where("QuoteAsset").Eq(quoteAsset)
+		markets, err := m.findMarkets(ctx, query)
 		if err != nil {
 			return err
 		}
 
-		err := m.updateMarket(ctx, market.AccountIndex, market)
-		if err != nil {
-			return err
+		if len(markets) > 0 {
+			market := markets[0]
+			if market.IsTradable() {
+				return nil
+			}
+
+			err = market.MakeTradable()
+			if err != nil {
+				return err
+			}
+
+			err := m.updateMarket(ctx, market.AccountIndex, market)
+			if err != nil {
+				return err
+			}
 		}
-	}
 
-	return nil
+		return nil
+	})
 }
 
 func (m marketRepositoryImpl) CloseMarket(
 	ctx context.Context,
 	quoteAsset string,
 ) error {
-	query := badgerhold.Where("QuoteAsset").Eq(quoteAsset)
-	markets, err := m.findMarkets(ctx, query)
-	if err != nil {
-		return err
-	}
-
-	if len(markets) > 0 {
-		market := markets[0]
-		if !market.IsTradable() {
-			return nil
-		}
-
-		err = market.MakeNotTradable()
+	return inTransaction(ctx, m.store, "tx", func(ctx context.Context) error {
+		query := badgerhold.Where("QuoteAsset").Eq(quoteAsset)
+		markets, err := m.findMarkets(ctx, query)
 		if err != nil {
 			return err
 		}
 
-		err := m.updateMarket(ctx, market.AccountIndex, market)
-		if err != nil {
-			return err
+		if len(markets) > 0 {
+			market := markets[0]
+			if !market.IsTradable() {
+				return nil
+			}
+
+			err = market.MakeNotTradable()
+			if err != nil {
+				return err
+			}
+
+			err := m.updateMarket(ctx, market.AccountIndex, market)
+			if err != nil {
+				return err
+			}
 		}
-	}
 
-	return nil
+		return nil
+	})
 }
 
 func (m marketRepositoryImpl) UpdatePrices(ctx context.Context, accountIndex int, prices domain.Prices) error {
diff --git a/internal/infrastructure/storage/db/badger/trade_repository_impl.go b/internal/infrastructure/storage/db/badger/trade_repository_impl.go
index e85bd68..9a8f0ba 100644
--- a/internal/infrastructure/storage/db/badger/trade_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/trade_repository_impl.go
@@ -97,30 +97,22 @@ func (t tradeRepositoryImpl) UpdateTrade(
 	ID *uuid.UUID,
 	updateFn func(t *domain.Trade) (*domain.Trade, error),
 ) error {
-	txIsNotGiven := ctx.Value("tx") == nil
-
-	currentTrade, err := t.getTrade(ctx, *ID)
-	if err != nil {
-		return err
-	}
-	if currentTrade == nil {
-		return ErrTradeNotFound
-	}
-
-	updatedTrade, err := updateFn(currentTrade)
-	if err != nil {
-		return err
-	}
+	return inTransaction(ctx, t.store, "tx", func(ctx context.Context) error {
+		currentTrade, err := t.getTrade(ctx, *ID)
+		if err != nil {
+			return err
+		}
+		if currentTrade == nil {
+			return ErrTradeNotFound
+		}
 
-	for {
-		err := t.updateTrade(ctx, updatedTrade.ID, *updatedTrade)
+		updatedTrade, err := updateFn(currentTrade)
 		if err != nil {
-			if txIsNotGiven && isTransactionConflict(err) {
-				continue
-			}
+			return err
 		}
-		return err
-	}
+
+		return t.updateTrade(ctx, updatedTrade.ID, *updatedTrade)
+	})
 }
 
 func (t tradeRepositoryImpl) getOrCreateTrade(
diff --git a/internal/infrastructure/storage/db/badger/unspent_repository_impl.go b/internal/infrastructure/storage/db/badger/unspent_repository_impl.go
index 7d418e1..921eac3 100644
--- a/internal/infrastructure/storage/db/badger/unspent_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/unspent_repository_impl.go
@@ -218,24 +218,24 @@ func (u unspentRepositoryImpl) spendUnspents(
 func (u unspentRepositoryImpl) spendUnspent(
 	ctx context.Context,
 	key domain.UnspentKey,
-) (bool, error) {
-	unspent, err := u.getUnspent(ctx, key)
-	if err != nil {
-		return false, err
-	}
-
-	if unspent == nil {
-		return false, nil
-	}
+) (done bool, err error) {
+	err = inTransaction(ctx, u.store, "utx", func(ctx context.Context) error {
+		unspent, err := u.getUnspent(ctx, key)
+		if err != nil {
+			return err
+		}
 
-	unspent.Spend()
-	unspent.Unlock() // prevent conflict, locks not stored under unspent prefix
+		done = unspent != nil
+		if !done {
+			return nil
+		}
 
-	if err := u.updateUnspent(ctx, key, *unspent); err != nil {
-		return false, err
-	}
+		unspent.Spend()
+		unspent.Unlock() // prevent conflict, locks not stored under unspent prefix
 
-	return true, nil
+		return u.updateUnspent(ctx, key, *unspent)
+	})
+	return done && err == nil, err
 }
 
 func (u unspentRepositoryImpl) confirmUnspents(
@@ -258,24 +258,24 @@ func (u unspentRepositoryImpl) confirmUnspents(
 func (u unspentRepositoryImpl) confirmUnspent(
 	ctx context.Context,
 	key domain.UnspentKey,
-) (bool, error) {
-	unspent, err := u.getUnspent(ctx, key)
-	if err != nil {
-		return false, err
-	}
-
-	if unspent == nil {
-		return false, nil
-	}
+) (done bool, err error) {
+	err = inTransaction(ctx, u.store, "utx", func(ctx context.Context) error {
+		unspent, err := u.getUnspent(ctx, key)
+		if err != nil {
+			return err
+		}
 
-	unspent.Confirm()
-	unspent.Unlock() // prevent conflict, locks not stored under unspent prefix
+		done = unspent != nil
+		if !done {
+			return nil
+		}
 
-	if err := u.updateUnspent(ctx, key, *unspent); err != nil {
-		return false, err
-	}
+		unspent.Confirm()
+		unspent.Unlock() // prevent conflict, locks not stored under unspent prefix
 
-	return true, nil
+		return u.updateUnspent(ctx, key, *unspent)
+	})
+	return done && err == nil, err
 }
 
 func (u unspentRepositoryImpl) lockUnspents(
diff --git a/internal/infrastructure/storage/db/badger/vault_repository_impl.go b/internal/infrastructure/storage/db/badger/vault_repository_impl.go
index 39611a4..cf568f7 100644
--- a/internal/infrastructure/storage/db/badger/vault_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/vault_repository_impl.go
@@ -37,20 +37,22 @@ func (v vaultRepositoryImpl) UpdateVault(
 	ctx context.Context,
 	updateFn func(v *domain.Vault) (*domain.Vault, error),
 ) error {
-	vault, err := v.getVault(ctx)
-	if err != nil {
-		return err
-	}
-	if vault == nil {
-		return ErrVaultNotFound
-	}
+	return inTransaction(ctx, v.store, "tx", func(ctx context.Context) error {
+		vault, err := v.getVault(ctx)
+		if err != nil {
+			return err
+		}
+		if vault == nil {
+			return ErrVaultNotFound
+		}
 
-	updatedVault, err := updateFn(vault)
-	if err != nil {
-		return err
-	}
+		updatedVault, err := updateFn(vault)
+		if err != nil {
+			return err
+		}
 
-	return v.updateVault(ctx, *updatedVault)
+		return v.updateVault(ctx, *updatedVault)
+	})
 }
 
 func (v vaultRepositoryImpl) GetAccountByIndex(
-- 
2.43.0


From 89befa63b3d83438043a61bce200f998eb906445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:29 +0000
Subject: [PATCH 25/71] fix: operator updates of vault and markets overwrite
 concurrent ones

Changes are applied to the record handed to the update function instead of
to a copy read before. Derived addresses are persisted before being handed
out or receiving change.
---
 internal/core/application/operator_service.go | 187 ++++++++----------
 1 file changed, 87 insertions(+), 100 deletions(-)

diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index e6e9192..531f273 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -181,50 +181,34 @@ func (o *operatorService) DepositMarket(
 		numOfAddresses = 1
 	}
 
-	vault, err := o.repoManager.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
-	if err != nil {
-		return nil, err
-	}
-
-	list := make([]AddressAndBlindingKey, numOfAddresses, numOfAddresses)
-	for i := 0; i < numOfAddresses; i++ {
-		info, err := vault.DeriveNextExternalAddressForAccount(accountIndex)
-		if err != nil {
+	var list []AddressAndBlindingKey
+	if _, err := o.repoManager.RunTransaction(ctx, false, func(ctx context.Context) (interface{}, error) {
+		// this makes sure that the market is created if it needs to. Otherwise,
+		// this does not commit any change to the marekt repo.
+		if _, err := o.repoManager.MarketRepository().GetOrCreateMarket(
+			ctx,
+			&domain.Market{
+				AccountIndex: accountIndex,
+				Fee:          o.marketFee,
+			},
+		); err != nil {
 			return nil, err
 		}
-		list[i] = AddressAndBlindingKey{
-			Address:     info.Address,
-			BlindingKey: hex.EncodeToString(info.BlindingKey),
-		}
-	}
-
-	go func() {
-		if _, err := o.repoManager.RunTransaction(ctx, false, func(ctx context.Context) (interface{}, error) {
-			// this makes sure that the market is created if it needs to. Otherwise,
-			// this does not commit any change to the marekt repo.
-			if _, err := o.repoManager.MarketRepository().GetOrCreateMarket(
-				ctx,
-				&domain.Market{
-					AccountIndex: accountIndex,
-					Fee:          o.marketFee,
-				},
-			); err != nil {
-				return nil, err
-			}
 
-			if err := o.repoManager.VaultRepository().UpdateVault(
-				ctx,
-				func(_ *domain.Vault) (*domain.Vault, error) {
-					return vault, nil
-				}); err != nil {
-				return nil, err
-			}
-
-			return nil, nil
-		}); err != nil {
-			log.WithError(err).Warn("unable to persist changes")
-		}
-	}()
+		return nil, o.repoManager.VaultRepository().UpdateVault(
+			ctx,
+			func(v *domain.Vault) (*domain.Vault, error) {
+				var err error
+				list, err = deriveExternalAddresses(v, accountIndex, numOfAddresses)
+				if err != nil {
+					return nil, err
+				}
+				return v, nil
+			},
+		)
+	}); err != nil {
+		return nil, err
+	}
 
 	return list, nil
 }
@@ -237,35 +221,21 @@ func (o *operatorService) DepositFeeAccount(
 		numOfAddresses = 1
 	}
 
-	vault, err := o.repoManager.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
-	if err != nil {
+	var list []AddressAndBlindingKey
+	if err := o.repoManager.VaultRepository().UpdateVault(
+		ctx,
+		func(v *domain.Vault) (*domain.Vault, error) {
+			var err error
+			list, err = deriveExternalAddresses(v, domain.FeeAccount, numOfAddresses)
+			if err != nil {
+				return nil, err
+			}
+			return v, nil
+		},
+	); err != nil {
 		return nil, err
 	}
 
-	list := make([]AddressAndBlindingKey, numOfAddresses, numOfAddresses)
-	for i := 0; i < numOfAddresses; i++ {
-		info, err := vault.DeriveNextExternalAddressForAccount(domain.FeeAccount)
-		if err != nil {
-			return nil, err
-		}
-
-		list[i] = AddressAndBlindingKey{
-			Address:     info.Address,
-			BlindingKey: hex.EncodeToString(info.BlindingKey),
-		}
-	}
-
-	go func() {
-		if err := o.repoManager.VaultRepository().UpdateVault(
-			ctx,
-			func(_ *domain.Vault) (*domain.Vault, error) {
-				return vault, nil
-			},
-		); err != nil {
-			log.WithError(err).Warn("unable to update vault")
-		}
-	}()
-
 	return list, nil
 }
 
@@ -382,15 +352,15 @@ func (o *operatorService) UpdateMarketPercentageFee(
 		return nil, ErrMarketNotExist
 	}
 
-	if err := mkt.ChangeFeeBasisPoint(req.BasisPoint); err != nil {
-		return nil, err
-	}
-
 	if err := o.repoManager.MarketRepository().UpdateMarket(
 		ctx,
 		accountIndex,
-		func(_ *domain.Market) (*domain.Market, error) {
-			return mkt, nil
+		func(m *domain.Market) (*domain.Market, error) {
+			if err := m.ChangeFeeBasisPoint(req.BasisPoint); err != nil {
+				return nil, err
+			}
+			mkt = m
+			return m, nil
 		},
 	); err != nil {
 		return nil, err
@@ -438,15 +408,15 @@ func (o *operatorService) UpdateMarketFixedFee(
 		return nil, ErrMarketNotExist
 	}
 
-	if err := mkt.ChangeFixedFee(req.FixedBaseFee, req.FixedQuoteFee); err != nil {
-		return nil, err
-	}
-
 	if err := o.repoManager.MarketRepository().UpdateMarket(
 		ctx,
 		accountIndex,
-		func(_ *domain.Market) (*domain.Market, error) {
-			return mkt, nil
+		func(m *domain.Market) (*domain.Market, error) {
+			if err := m.ChangeFixedFee(req.FixedBaseFee, req.FixedQuoteFee); err != nil {
+				return nil, err
+			}
+			mkt = m
+			return m, nil
 		},
 	); err != nil {
 		return nil, err
@@ -800,24 +770,32 @@ func (o *operatorService) WithdrawMarketFunds(
 		return nil, err
 	}
 
+	// the change addresses must be persisted before the transaction sending
+	// funds to them gets broadcasted
 	changePathsByAsset := map[string]string{}
 	feeChangePathByAsset := map[string]string{}
-	for _, asset := range getAssetsOfOutputs(outputs) {
-		info, err := vault.DeriveNextInternalAddressForAccount(accountIndex)
-		if err != nil {
-			return nil, err
-		}
+	if err := o.repoManager.VaultRepository().UpdateVault(
+		ctx,
+		func(v *domain.Vault) (*domain.Vault, error) {
+			for _, asset := range getAssetsOfOutputs(outputs) {
+				info, err := v.DeriveNextInternalAddressForAccount(accountIndex)
+				if err != nil {
+					return nil, err
+				}
+				changePathsByAsset[asset] = info.DerivationPath
+			}
 
-		derivationPath := marketAccount.DerivationPathByScript[info.Script]
-		changePathsByAsset[asset] = derivationPath
-	}
+			feeInfo, err := v.DeriveNextInternalAddressForAccount(domain.FeeAccount)
+			if err != nil {
+				return nil, err
+			}
+			feeChangePathByAsset[o.network.AssetID] = feeInfo.DerivationPath
 
-	feeInfo, err := vault.DeriveNextInternalAddressForAccount(domain.FeeAccount)
-	if err != nil {
+			return v, nil
+		},
+	); err != nil {
 		return nil, err
 	}
-	feeChangePathByAsset[o.network.AssetID] =
-		feeAccount.DerivationPathByScript[feeInfo.Script]
 
 	txHex, err := sendToMany(sendToManyOpts{
 		mnemonic:              mnemonic,
@@ -844,15 +822,6 @@ func (o *operatorService) WithdrawMarketFunds(
 		}
 	}
 
-	if err := o.repoManager.VaultRepository().UpdateVault(
-		ctx,
-		func(_ *domain.Vault) (*domain.Vault, error) {
-			return vault, nil
-		},
-	); err != nil {
-		return nil, err
-	}
-
 	go extractUnspentsFromTxAndUpdateUtxoSet(
 		o.repoManager.UnspentRepository(),
 		o.repoManager.VaultRepository(),
@@ -1455,3 +1424,21 @@ func appendUtxoInfo(list []UtxoInfo, unspent domain.Unspent) []UtxoInfo {
 		Asset: unspent.AssetHash,
 	})
 }
+
+func deriveExternalAddresses(
+	vault *domain.Vault,
+	accountIndex, numOfAddresses int,
+) ([]AddressAndBlindingKey, error) {
+	list := make([]AddressAndBlindingKey, numOfAddresses, numOfAddresses)
+	for i := 0; i < numOfAddresses; i++ {
+		info, err := vault.DeriveNextExternalAddressForAccount(accountIndex)
+		if err != nil {
+			return nil, err
+		}
+		list[i] = AddressAndBlindingKey{
+			Address:     info.Address,
+			BlindingKey: hex.EncodeToString(info.BlindingKey),
+		}
+	}
+	return list, nil
+}
-- 
2.43.0


From 598fb1534a74c3dea36f55c72df5b729e084d15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:29 +0000
Subject: [PATCH 26/71] fix: accept a trade only once it is persisted with its
 addresses

The trade and the derived addresses were persisted in background after the
reply, overwriting concurrent changes of the vault.
---
 internal/core/application/trade_service.go | 110 ++++++++++++++-------
 1 file changed, 77 insertions(+), 33 deletions(-)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index b2b14f5..aedcb4e 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -457,48 +457,66 @@ end:
 			return nil, nil, 0, ErrServiceUnavailable
 		}
 		log.Debugf("locked %d unspents", lockedUnspents)
-
-		// set timer for trade expiration
-		go func() {
-			// admit a tollerance of 1 minute past the expiration time.
-			time.Sleep(t.expiryDuration + time.Minute)
-			t.checkTradeExpiration(trade.TxID, selectedUnspentKeys)
-		}()
 	} else {
 		log.WithField("reason", swapFail.GetFailureMessage()).Infof("trade with id %s rejected", trade.ID)
 	}
 
-	go func() {
-		if _, err := t.repoManager.RunTransaction(
-			context.Background(),
-			false,
-			func(ctx context.Context) (interface{}, error) {
-				if _, err := t.repoManager.TradeRepository().GetOrCreateTrade(ctx, &trade.ID); err != nil {
-					return nil, err
-				}
-				if err := t.repoManager.TradeRepository().UpdateTrade(ctx, &trade.ID, func(_ *domain.Trade) (*domain.Trade, error) {
-					return trade, nil
-				}); err != nil {
-					return nil, err
-				}
+	if _, err := t.repoManager.RunTransaction(
+		context.Background(),
+		false,
+		func(ctx context.Context) (interface{}, error) {
+			if _, err := t.repoManager.TradeRepository().GetOrCreateTrade(ctx, &trade.ID); err != nil {
+				return nil, err
+			}
+			if err := t.repoManager.TradeRepository().UpdateTrade(ctx, &trade.ID, func(_ *domain.Trade) (*domain.Trade, error) {
+				return trade, nil
+			}); err != nil {
+				return nil, err
+			}
 
-				if swapAccept != nil {
-					if err := t.repoManager.VaultRepository().UpdateVault(ctx, func(_ *domain.Vault) (*domain.Vault, error) {
-						return vault, nil
-					}); err != nil {
+			if swapAccept != nil {
+				if err := t.repoManager.VaultRepository().UpdateVault(ctx, func(v *domain.Vault) (*domain.Vault, error) {
+					if err := deriveAddressesUpTo(
+						v.DeriveNextExternalAddressForAccount, v, outInfo,
+					); err != nil {
 						return nil, err
 					}
+					if err := deriveAddressesUpTo(
+						v.DeriveNextInternalAddressForAccount, v, changeInfo, feeChangeInfo,
+					); err != nil {
+						return nil, err
+					}
+					return v, nil
+				}); err != nil {
+					return nil, err
 				}
-				return nil, nil
-			},
-		); err != nil {
-			log.WithError(err).Warn("unable to persist changes after trade is accepted")
-		}
-
+			}
+			return nil, nil
+		},
+	); err != nil {
+		log.WithError(err).Warn("unable to persist changes after trade is accepted")
 		if swapAccept != nil {
-			t.blockchainListener.StartObserveTx(trade.TxID)
+			// the swap must not be accepted if the trade is not persisted
+			if _, err := t.repoManager.UnspentRepository().UnlockUnspents(
+				context.Background(),
+				selectedUnspentKeys,
+			); err != nil {
+				log.WithError(err).Warn("unable to unlock unspents of trade not persisted")
+			}
+			return nil, nil, 0, ErrServiceUnavailable
 		}
-	}()
+	}
+
+	if swapAccept != nil {
+		// set timer for trade expiration
+		go func() {
+			// admit a tollerance of 1 minute past the expiration time.
+			time.Sleep(t.expiryDuration + time.Minute)
+			t.checkTradeExpiration(trade.TxID, selectedUnspentKeys)
+		}()
+
+		go t.blockchainListener.StartObserveTx(trade.TxID)
+	}
 
 	return swapAccept, swapFail, swapExpiryTime, nil
 }
@@ -525,6 +543,27 @@ func (t *tradeService) TradeComplete(
 	return t.tradeComplete(ctx, *swapComplete)
 }
 
+// deriveAddressesUpTo derives addresses with the given function of the vault
+// until this holds all those provided, that might be already there if derived
+// meanwhile by somebody else.
+func deriveAddressesUpTo(
+	deriveNext func(accountIndex int) (*domain.AddressInfo, error),
+	vault *domain.Vault,
+	addresses ...*domain.AddressInfo,
+) error {
+	for _, info := range addresses {
+		for {
+			if _, ok := vault.AccountAndKeyByAddress[info.Address]; ok {
+				break
+			}
+			if _, err := deriveNext(info.AccountIndex); err != nil {
+				return err
+			}
+		}
+	}
+	return nil
+}
+
 func (t *tradeService) tradeComplete(
 	ctx context.Context,
 	swapComplete domain.SwapComplete,
@@ -574,7 +613,12 @@ func (t *tradeService) tradeComplete(
 		if err := t.repoManager.TradeRepository().UpdateTrade(
 			ctx,
 			&trade.ID,
-			func(previousTrade *domain.Trade) (*domain.Trade, error) { return trade, nil },
+			func(previousTrade *domain.Trade) (*domain.Trade, error) {
+				if _, err := previousTrade.Complete(tx); err != nil {
+					return nil, err
+				}
+				return previousTrade, nil
+			},
 		); err != nil {
 			log.Error("unable to persist completed trade with id ", trade.ID, " : ", err.Error())
 		}
-- 
2.43.0


From 7307a70bea7ea8ca0405f9ab006d6ea81020978e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:29 +0000
Subject: [PATCH 27/71] fix: wallet service overwrites concurrent changes of
 the vault

The transaction of SendToMany is broadcasted after the change addresses are
persisted, not within the update of the vault that may be repeated.
---
 internal/core/application/wallet_service.go | 31 ++++++++++-----------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 27e69d5..6a24da8 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -299,14 +299,13 @@ func (w *walletService) UnlockWallet(
 		return nil
 	}
 
-	if err := vault.Unlock(passphrase); err != nil {
-		return err
-	}
-
 	if err := w.repoManager.VaultRepository().UpdateVault(
 		ctx,
-		func(_ *domain.Vault) (*domain.Vault, error) {
-			return vault, nil
+		func(v *domain.Vault) (*domain.Vault, error) {
+			if err := v.Unlock(passphrase); err != nil {
+				return nil, err
+			}
+			return v, nil
 		},
 	); err != nil {
 		return err
@@ -548,22 +547,22 @@ func (w *walletService) SendToMany(
 
 			txHex = _txHex
 
-			if !req.Push {
-				return v, nil
-			}
-
-			txid, err := w.explorerService.BroadcastTransaction(txHex)
-			if err != nil {
-				return nil, err
-			}
-			log.Debugf("wallet account tx broadcasted with id: %s", txid)
-
 			return v, nil
 		},
 	); err != nil {
 		return nil, err
 	}
 
+	// the update of the vault above might be repeated in case of conflicts, the
+	// transaction must be broadcasted only once the change addresses are persisted
+	if req.Push {
+		txid, err := w.explorerService.BroadcastTransaction(txHex)
+		if err != nil {
+			return nil, err
+		}
+		log.Debugf("wallet account tx broadcasted with id: %s", txid)
+	}
+
 	go extractUnspentsFromTxAndUpdateUtxoSet(
 		w.repoManager.UnspentRepository(),
 		w.repoManager.VaultRepository(),
-- 
2.43.0


From e03bd17633285c52f3f47f37bdacf467ead1027d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:46 +0000
Subject: [PATCH 28/71] fix: wallet keeps syncing forever after a failed
 restoration

---
 internal/core/application/wallet_service.go | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 6a24da8..693aa6e 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -182,6 +182,7 @@ func (w *walletService) InitWallet(
 		log.Debug("restoring wallet")
 		start := time.Now()
 		defer func() {
+			w.setSyncing(false)
 			elapsed := time.Since(start)
 			log.Debugf("Restoration took: %.2fs", elapsed.Seconds())
 		}()
@@ -273,9 +274,6 @@ func (w *walletService) InitWallet(
 		CurrentPwd: passphrase,
 	}
 	w.setInitialized(true)
-	if w.isSyncing() {
-		w.setSyncing(false)
-	}
 	log.Debug("done")
 }
 
-- 
2.43.0


From 5586f5f855d914e8619f5a1240e7399cac807a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:56 +0000
Subject: [PATCH 29/71] fix: in-memory vault is shared with its readers and
 changed by failed updates

---
 .../inmemory/vault_memory_implementation.go   | 31 ++++++++++++++++---
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/internal/infrastructure/storage/db/inmemory/vault_memory_implementation.go b/internal/infrastructure/storage/db/inmemory/vault_memory_implementation.go
index 1e31d32..79ac969 100644
--- a/internal/infrastructure/storage/db/inmemory/vault_memory_implementation.go
+++ b/internal/infrastructure/storage/db/inmemory/vault_memory_implementation.go
@@ -73,7 +73,7 @@ func (r VaultRepositoryImpl) GetAccountByIndex(ctx context.Context,
 	r.store.locker.Lock()
 	defer r.store.locker.Unlock()
 
-	return r.store.vault.AccountByIndex(accountIndex)
+	return copyVault(r.store.vault).AccountByIndex(accountIndex)
 }
 
 func (r VaultRepositoryImpl) GetAccountByAddress(
@@ -83,7 +83,7 @@ func (r VaultRepositoryImpl) GetAccountByAddress(
 	r.store.locker.Lock()
 	defer r.store.locker.Unlock()
 
-	return r.store.vault.AccountByAddress(addr)
+	return copyVault(r.store.vault).AccountByAddress(addr)
 }
 
 func (r VaultRepositoryImpl) GetAllDerivedAddressesInfoForAccount(
@@ -120,14 +120,37 @@ func (r VaultRepositoryImpl) getOrCreateVault(
 		}
 		r.store.vault = v
 	}
-	return r.store.vault, nil
+	return r.getVault(ctx), nil
 }
 
 func (r VaultRepositoryImpl) getVault(_ context.Context) *domain.Vault {
 	if r.store.vault.IsZero() {
 		return nil
 	}
-	return r.store.vault
+	return copyVault(r.store.vault)
+}
+
+// copyVault prevents the stored vault from being shared with its readers,
+// that would change it without holding the lock, or even if the update that
+// changes it fails.
+func copyVault(v *domain.Vault) *domain.Vault {
+	vault := *v
+	vault.Accounts = make(map[int]*domain.Account, len(v.Accounts))
+	for index, a := range v.Accounts {
+		account := *a
+		account.DerivationPathByScript = make(map[string]string, len(a.DerivationPathByScript))
+		for script, path := range a.DerivationPathByScript {
+			account.DerivationPathByScript[script] = path
+		}
+		vault.Accounts[index] = &account
+	}
+	vault.AccountAndKeyByAddress = make(
+		map[string]domain.AccountAndKey, len(v.AccountAndKeyByAddress),
+	)
+	for addr, info := range v.AccountAndKeyByAddress {
+		vault.AccountAndKeyByAddress[addr] = info
+	}
+	return &vault
 }
 
 func (r VaultRepositoryImpl) getDerivationPathByScript(
-- 
2.43.0


From 49557a414c9a9a1be5d29d16e09196a594106bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:16 +0000
Subject: [PATCH 30/71] fix: price of a market not stored when changed along
 with the market

Making a market pluggable resets its price so that it cannot be opened again
until priced. With badger the price is kept in its own store that was not
updated, thus the market could be opened with a stale price.
---
 .../db/badger/market_repository_impl.go       | 25 +++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/internal/infrastructure/storage/db/badger/market_repository_impl.go b/internal/infrastructure/storage/db/badger/market_repository_impl.go
index 55f4d3e..1f51574 100644
--- a/internal/infrastructure/storage/db/badger/market_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/market_repository_impl.go
@@ -99,7 +99,7 @@ func (m marketRepositoryImpl) UpdateMarket(
 	accountIndex int,
 	updateFn func(m *domain.Market) (*domain.Market, error),
 ) error {
-	return inTransaction(ctx, m.store, "tx", func(ctx context.Context) error {
+	return m.inMarketTransaction(ctx, func(ctx context.Context) error {
 		currentMarket, err := m.getMarket(ctx, accountIndex)
 		if err != nil {
 			return err
@@ -107,13 +107,23 @@ func (m marketRepositoryImpl) UpdateMarket(
 		if currentMarket == nil {
 			return ErrMarketNotFound
 		}
+		currentPrice := currentMarket.Price
 
 		updatedMarket, err := updateFn(currentMarket)
 		if err != nil {
 			return err
 		}
 
-		return m.updateMarket(ctx, accountIndex, *updatedMarket)
+		if err := m.updateMarket(ctx, accountIndex, *updatedMarket); err != nil {
+			return err
+		}
+
+		// the price is kept in a separate store, so it must be updated as well in
+		// case it changed along with the market
+		if updatedMarket.Price == currentPrice {
+			return nil
+		}
+		return m.updatePriceByAccountIndex(ctx, accountIndex, updatedMarket.Price)
 	})
 }
 
@@ -190,6 +200,17 @@ func (m marketRepositoryImpl) UpdatePrices(ctx context.Context, accountIndex int
 	return nil
 }
 
+// inMarketTransaction runs the given handler within a transaction of both the
+// store of the markets and that of their prices.
+func (m marketRepositoryImpl) inMarketTransaction(
+	ctx context.Context,
+	handler func(ctx context.Context) error,
+) error {
+	return inTransaction(ctx, m.store, "tx", func(ctx context.Context) error {
+		return inTransaction(ctx, m.priceStore, "ptx", handler)
+	})
+}
+
 func (m marketRepositoryImpl) getOrCreateMarket(
 	ctx context.Context,
 	market *domain.Market,
-- 
2.43.0


From 11607dfd04641c6b486a35e88eec6dad6d301790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:28 +0000
Subject: [PATCH 31/71] fix: market left without price if its creation is
 interrupted

---
 .../storage/db/badger/market_repository_impl.go      | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/internal/infrastructure/storage/db/badger/market_repository_impl.go b/internal/infrastructure/storage/db/badger/market_repository_impl.go
index 1f51574..485c4b9 100644
--- a/internal/infrastructure/storage/db/badger/market_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/market_repository_impl.go
@@ -24,8 +24,16 @@ func NewMarketRepositoryImpl(store, priceStore *badgerhold.Store) domain.MarketR
 func (m marketRepositoryImpl) GetOrCreateMarket(
 	ctx context.Context,
 	market *domain.Market,
-) (*domain.Market, error) {
-	return m.getOrCreateMarket(ctx, market)
+) (mkt *domain.Market, err error) {
+	// the market must never be stored without its price
+	err = m.inMarketTransaction(ctx, func(ctx context.Context) error {
+		mkt, err = m.getOrCreateMarket(ctx, market)
+		return err
+	})
+	if err != nil {
+		return nil, err
+	}
+	return mkt, nil
 }
 
 func (m marketRepositoryImpl) GetMarketByAccount(
-- 
2.43.0


From a277b690120b1baa3e21cc96ec82c8e7c20d41fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:18 +0000
Subject: [PATCH 32/71] fix: asset hashes with leading or trailing characters
 are accepted

---
 internal/core/application/validators.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/core/application/validators.go b/internal/core/application/validators.go
index b28286e..e4595e0 100644
--- a/internal/core/application/validators.go
+++ b/internal/core/application/validators.go
@@ -20,7 +20,7 @@ func validateAmount(satoshis decimal.Decimal) error {
 }
 
 func validateAssetString(asset string) error {
-	const regularExpression = `[0-9a-f]{64}`
+	const regularExpression = `^[0-9a-f]{64}$`
 
 	matched, err := regexp.Match(regularExpression, []byte(asset))
 	if err != nil {
-- 
2.43.0


From 6bb7bc457fe741e5a36d5d13b88063f8b8baddcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 33/71] fix: balance of a market is returned for another base
 asset

---
 internal/core/application/trade_service.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index aedcb4e..ba259e6 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -204,6 +204,10 @@ func (t *tradeService) GetMarketBalance(
 		return nil, domain.ErrMarketInvalidQuoteAsset
 	}
 
+	if market.BaseAsset != t.marketBaseAsset {
+		return nil, ErrMarketNotExist
+	}
+
 	vault, err := t.repoManager.VaultRepository().GetOrCreateVault(ctx, nil, "", nil)
 	if err != nil {
 		log.Debugf("error while retrieving vault: %s", err)
-- 
2.43.0


From 87a30ee3c7708279f0d5995ab727de562440ec1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:58 +0000
Subject: [PATCH 34/71] fix: crawler never checks an observable again after an
 error

---
 pkg/crawler/observable.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pkg/crawler/observable.go b/pkg/crawler/observable.go
index 2add166..abae9b8 100644
--- a/pkg/crawler/observable.go
+++ b/pkg/crawler/observable.go
@@ -50,6 +50,9 @@ func (a *AddressObservable) Observe(
 	}
 
 	observableStatus.Set(Waiting)
+	// whatever the outcome, the observable must be checked again at next tick
+	defer observableStatus.Set(Processed)
+
 	if err := rateLimiter.Wait(context.Background()); err != nil {
 		errChan <- err
 		return
@@ -64,8 +67,6 @@ func (a *AddressObservable) Observe(
 	}
 	unspents := iUnspents.([]explorer.Utxo)
 
-	observableStatus.Set(Processed)
-
 	var eventType EventType
 	switch a.AccountIndex {
 	case domain.FeeAccount:
@@ -111,6 +112,9 @@ func (t *TransactionObservable) Observe(
 	}
 
 	observableStatus.Set(Waiting)
+	// whatever the outcome, the observable must be checked again at next tick
+	defer observableStatus.Set(Processed)
+
 	if err := rateLimiter.Wait(context.Background()); err != nil {
 		errChan <- err
 		return
@@ -135,8 +139,6 @@ func (t *TransactionObservable) Observe(
 		}
 	}
 
-	observableStatus.Set(Processed)
-
 	var confirmed bool
 	var blockHash string
 	var blockTime float64
-- 
2.43.0


From 3e7a670f85df539bf57c8fcddb8132f709eddde4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:18 +0000
Subject: [PATCH 35/71] fix: crawler can panic or deadlock when stopped

---
 pkg/crawler/observable.go |  8 +++-----
 pkg/crawler/service.go    | 21 ++++++++++++++++++---
 2 files changed, 21 insertions(+), 8 deletions(-)

diff --git a/pkg/crawler/observable.go b/pkg/crawler/observable.go
index abae9b8..99470e1 100644
--- a/pkg/crawler/observable.go
+++ b/pkg/crawler/observable.go
@@ -228,7 +228,7 @@ func newObservableHandler(
 	rateLimiter *rate.Limiter,
 ) *observableHandler {
 	ticker := time.NewTicker(interval)
-	stopChan := make(chan int, 1)
+	stopChan := make(chan int)
 
 	return &observableHandler{
 		observable,
@@ -245,7 +245,7 @@ func newObservableHandler(
 
 func (oh *observableHandler) start() {
 	oh.logAction("start")
-	oh.wg.Add(1)
+	defer oh.wg.Done()
 	for {
 		select {
 		case <-oh.ticker.C:
@@ -260,7 +260,6 @@ func (oh *observableHandler) start() {
 			}
 		case <-oh.stopChan:
 			oh.ticker.Stop()
-			close(oh.stopChan)
 			return
 		}
 	}
@@ -268,8 +267,7 @@ func (oh *observableHandler) start() {
 
 func (oh *observableHandler) stop() {
 	oh.logAction("stop")
-	oh.stopChan <- 1
-	oh.wg.Done()
+	close(oh.stopChan)
 }
 
 func (oh *observableHandler) logAction(action string) {
diff --git a/pkg/crawler/service.go b/pkg/crawler/service.go
index fed4295..4c2a194 100644
--- a/pkg/crawler/service.go
+++ b/pkg/crawler/service.go
@@ -20,6 +20,7 @@ type blockchainCrawler struct {
 	eventChan    chan Event
 	observables  map[string]*observableHandler
 	errorHandler func(err error)
+	stopped      bool
 	mutex        *sync.RWMutex
 	wg           *sync.WaitGroup
 	rateLimiter  *rate.Limiter
@@ -72,10 +73,19 @@ func (bc *blockchainCrawler) Start() {
 // Stop stops crawler
 func (bc *blockchainCrawler) Stop() {
 	bc.mutex.Lock()
-	defer bc.mutex.Unlock()
-	for _, obsHandler := range bc.observables {
-		go obsHandler.stop()
+	if bc.stopped {
+		bc.mutex.Unlock()
+		return
+	}
+	bc.stopped = true
+	for key, obsHandler := range bc.observables {
+		obsHandler.stop()
+		delete(bc.observables, key)
 	}
+	bc.mutex.Unlock()
+
+	// the lock must not be held here, it's needed by those consuming the events
+	// of the observables that are about to terminate.
 	bc.wg.Wait()
 	bc.eventChan <- CloseEvent{}
 	close(bc.errChan)
@@ -96,6 +106,10 @@ func (bc *blockchainCrawler) AddObservable(observable Observable) {
 	bc.mutex.Lock()
 	defer bc.mutex.Unlock()
 
+	if bc.stopped {
+		return
+	}
+
 	if _, ok := bc.observables[observable.Key()]; !ok {
 		obsHandler := newObservableHandler(
 			observable,
@@ -108,6 +122,7 @@ func (bc *blockchainCrawler) AddObservable(observable Observable) {
 		)
 
 		bc.observables[observable.Key()] = obsHandler
+		bc.wg.Add(1)
 		go obsHandler.start()
 	}
 }
-- 
2.43.0


From 71b2dba274be66143571de3b56316523af217518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:39 +0000
Subject: [PATCH 36/71] fix: pending observables accessed without holding the
 lock

---
 internal/core/application/blockchain_listener.go | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/internal/core/application/blockchain_listener.go b/internal/core/application/blockchain_listener.go
index 20b994c..2f438ae 100644
--- a/internal/core/application/blockchain_listener.go
+++ b/internal/core/application/blockchain_listener.go
@@ -88,7 +88,11 @@ func (b *blockchainListener) StartObservation() {
 		go b.crawlerSvc.Start()
 		log.Debug("start listening on event channel")
 		go b.listenToEventChannel()
-		go b.startPendingObservables()
+		// the pending observables are handed over since the lock is not held by
+		// the goroutine
+		pendingObservables := b.pendingObservables
+		b.pendingObservables = nil
+		go b.startObservables(pendingObservables)
 		b.started = true
 	}
 }
@@ -258,17 +262,11 @@ func (b *blockchainListener) listenToEventChannel() {
 	}
 }
 
-func (b *blockchainListener) startPendingObservables() {
-	if len(b.pendingObservables) <= 0 {
-		return
-	}
-
-	for _, observable := range b.pendingObservables {
+func (b *blockchainListener) startObservables(observables []crawler.Observable) {
+	for _, observable := range observables {
 		b.crawlerSvc.AddObservable(observable)
 		time.Sleep(200 * time.Millisecond)
 	}
-
-	b.pendingObservables = nil
 }
 
 func (b *blockchainListener) settleTrade(tradeID *uuid.UUID, event crawler.TransactionEvent) error {
-- 
2.43.0


From e8ff48247fac0880d59d997a5e61c05e706087c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:31 +0000
Subject: [PATCH 37/71] fix: decryption of a too short cyphertext panics

---
 pkg/wallet/cypher.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pkg/wallet/cypher.go b/pkg/wallet/cypher.go
index 4a21eb2..362b870 100644
--- a/pkg/wallet/cypher.go
+++ b/pkg/wallet/cypher.go
@@ -81,6 +81,9 @@ func Decrypt(opts DecryptOpts) (string, error) {
 	}
 
 	data, _ := base64.StdEncoding.DecodeString(opts.CypherText)
+	if len(data) < 32 {
+		return "", ErrInvalidCypherText
+	}
 	salt, data := data[len(data)-32:], data[:len(data)-32]
 
 	key, _, err := DeriveKey([]byte(opts.Passphrase), salt)
@@ -96,6 +99,9 @@ func Decrypt(opts DecryptOpts) (string, error) {
 	if err != nil {
 		return "", err
 	}
+	if len(data) < gcm.NonceSize() {
+		return "", ErrInvalidCypherText
+	}
 	nonce, text := data[:gcm.NonceSize()], data[gcm.NonceSize():]
 	plaintext, err := gcm.Open(nil, nonce, text, nil)
 	if err != nil {
-- 
2.43.0


From 053b4569177c47ed39dff7b67fa82d8273597e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:02 +0000
Subject: [PATCH 38/71] fix: error or end of wallet initialisation is lost by
 the handler

---
 internal/interfaces/grpc/handler/wallet.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/interfaces/grpc/handler/wallet.go b/internal/interfaces/grpc/handler/wallet.go
index 51b3e73..13ab26a 100644
--- a/internal/interfaces/grpc/handler/wallet.go
+++ b/internal/interfaces/grpc/handler/wallet.go
@@ -121,7 +121,8 @@ func (w walletHandler) initWallet(
 			return err
 		case reply, ok := <-chReplies:
 			if !ok {
-				return nil
+				// an error might be still pending, the channel is closed otherwise
+				return <-chErr
 			}
 			if err := stream.Send(&pb.InitWalletReply{
 				Account: uint64(reply.AccountIndex),
@@ -129,6 +130,11 @@ func (w walletHandler) initWallet(
 				Status:  pb.InitWalletReply_Status(reply.Status),
 				Data:    reply.Data,
 			}); err != nil {
+				// let the service terminate even if nobody receives its replies
+				go func() {
+					for range chReplies {
+					}
+				}()
 				return err
 			}
 		}
-- 
2.43.0


From 14ca2d0b7366e89808bea35a54e034b04f2da0c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:05 +0000
Subject: [PATCH 39/71] fix: daemon panics if a market price is not a finite
 number

---
 internal/interfaces/grpc/handler/operator.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/internal/interfaces/grpc/handler/operator.go b/internal/interfaces/grpc/handler/operator.go
index 5a4e361..615afaf 100644
--- a/internal/interfaces/grpc/handler/operator.go
+++ b/internal/interfaces/grpc/handler/operator.go
@@ -3,6 +3,7 @@ package grpchandler
 import (
 	"context"
 	"errors"
+	"math"
 	"time"
 
 	"github.com/shopspring/decimal"
@@ -847,12 +848,17 @@ func validatePrice(price *pbtypes.Price) error {
 	if price == nil {
 		return errors.New("price is null")
 	}
-	if price.GetBasePrice() <= 0 || price.GetQuotePrice() <= 0 {
+	if !isPositive(price.GetBasePrice()) || !isPositive(price.GetQuotePrice()) {
 		return errors.New("base or quote price are too low")
 	}
 	return nil
 }
 
+// isPositive returns false for anything that is not a positive finite number.
+func isPositive(price float32) bool {
+	return price > 0 && price <= math.MaxFloat32
+}
+
 func validateStrategyType(sType pb.StrategyType) error {
 	if domain.StrategyType(sType) < domain.StrategyTypePluggable ||
 		domain.StrategyType(sType) > domain.StrategyTypeUnbalanced {
-- 
2.43.0


From 6ee65cb065a5aa6dbf99181c287808ae5ba1865e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:07 +0000
Subject: [PATCH 40/71] fix: daemon panics if a number of addresses or outpoint
 index is negative

---
 internal/interfaces/grpc/handler/operator.go | 32 ++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/internal/interfaces/grpc/handler/operator.go b/internal/interfaces/grpc/handler/operator.go
index 615afaf..79066fa 100644
--- a/internal/interfaces/grpc/handler/operator.go
+++ b/internal/interfaces/grpc/handler/operator.go
@@ -278,6 +278,10 @@ func (o operatorHandler) depositMarket(
 	ctx context.Context,
 	req *pb.DepositMarketRequest,
 ) (*pb.DepositMarketReply, error) {
+	if err := validateNumOfAddresses(req.GetNumOfAddresses()); err != nil {
+		return nil, status.Error(codes.InvalidArgument, err.Error())
+	}
+
 	addressesAndKeys, err := o.operatorSvc.DepositMarket(
 		ctx,
 		req.GetMarket().GetBaseAsset(),
@@ -300,6 +304,10 @@ func (o operatorHandler) depositFeeAccount(
 	ctx context.Context,
 	req *pb.DepositFeeAccountRequest,
 ) (*pb.DepositFeeAccountReply, error) {
+	if err := validateNumOfAddresses(req.GetNumOfAddresses()); err != nil {
+		return nil, status.Error(codes.InvalidArgument, err.Error())
+	}
+
 	deposits, err := o.operatorSvc.DepositFeeAccount(
 		ctx,
 		int(req.GetNumOfAddresses()),
@@ -637,6 +645,10 @@ func (o operatorHandler) claimMarketDeposit(
 	ctx context.Context,
 	req *pb.ClaimMarketDepositRequest,
 ) (*pb.ClaimMarketDepositReply, error) {
+	if err := validateOutpoints(req.GetOutpoints()); err != nil {
+		return nil, status.Error(codes.InvalidArgument, err.Error())
+	}
+
 	outputs := make([]application.TxOutpoint, 0, len(req.GetOutpoints()))
 	for _, v := range req.GetOutpoints() {
 		outputs = append(outputs, application.TxOutpoint{
@@ -663,6 +675,10 @@ func (o operatorHandler) claimFeeDeposit(
 	ctx context.Context,
 	req *pb.ClaimFeeDepositRequest,
 ) (*pb.ClaimFeeDepositReply, error) {
+	if err := validateOutpoints(req.GetOutpoints()); err != nil {
+		return nil, status.Error(codes.InvalidArgument, err.Error())
+	}
+
 	outputs := make([]application.TxOutpoint, 0, len(req.GetOutpoints()))
 	for _, v := range req.GetOutpoints() {
 		outputs = append(outputs, application.TxOutpoint{
@@ -837,6 +853,22 @@ func validateMarket(market *pbtypes.Market) error {
 	return nil
 }
 
+func validateNumOfAddresses(numOfAddresses int64) error {
+	if numOfAddresses < 0 {
+		return errors.New("number of addresses is negative")
+	}
+	return nil
+}
+
+func validateOutpoints(outpoints []*pb.TxOutpoint) error {
+	for _, o := range outpoints {
+		if o.GetIndex() < 0 {
+			return errors.New("outpoint index is negative")
+		}
+	}
+	return nil
+}
+
 func validateFixedFee(fee *pbtypes.Fixed) error {
 	if fee == nil {
 		return errors.New("fixed fee is null")
-- 
2.43.0


From e7860591c32fe062d5c5e4cf07b5740bc173b369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:00 +0000
Subject: [PATCH 41/71] fix: strategy of a pluggable market is reported with an
 unknown type

---
 internal/interfaces/grpc/handler/operator.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/interfaces/grpc/handler/operator.go b/internal/interfaces/grpc/handler/operator.go
index 79066fa..fa08a08 100644
--- a/internal/interfaces/grpc/handler/operator.go
+++ b/internal/interfaces/grpc/handler/operator.go
@@ -745,7 +745,7 @@ func (o operatorHandler) listMarket(ctx context.Context, req *pb.ListMarketReque
 				},
 			},
 			Tradable:     marketInfo.Tradable,
-			StrategyType: pb.StrategyType(marketInfo.StrategyType),
+			StrategyType: parseStrategyType(marketInfo.StrategyType),
 			AccountIndex: marketInfo.AccountIndex,
 			Price: &pbtypes.Price{
 				BasePrice:  basePrice,
@@ -891,6 +891,13 @@ func isPositive(price float32) bool {
 	return price > 0 && price <= math.MaxFloat32
 }
 
+func parseStrategyType(strategyType int) pb.StrategyType {
+	if strategyType == domain.PluggableStrategyType {
+		return pb.StrategyType_PLUGGABLE
+	}
+	return pb.StrategyType(strategyType)
+}
+
 func validateStrategyType(sType pb.StrategyType) error {
 	if domain.StrategyType(sType) < domain.StrategyTypePluggable ||
 		domain.StrategyType(sType) > domain.StrategyTypeUnbalanced {
-- 
2.43.0


From ccacc00c18e7470f6552927e205b4aa73012dd13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:55 +0000
Subject: [PATCH 42/71] fix: daemon panics extracting unspents from a tx with
 foreign witnesses

---
 internal/core/application/types.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/internal/core/application/types.go b/internal/core/application/types.go
index e31cb5a..e1dcbca 100644
--- a/internal/core/application/types.go
+++ b/internal/core/application/types.go
@@ -260,9 +260,13 @@ func (t transactionManager) ExtractUnspents(
 	unspentsToSpend := make([]domain.UnspentKey, 0)
 
 	for _, in := range tx.Inputs {
-		// our unspents are native-segiwt only
-		if len(in.Witness) > 0 {
-			pubkey, _ := btcec.ParsePubKey(in.Witness[1], btcec.S256())
+		// our unspents are native-segiwt only, inputs owned by others might have
+		// any kind of witness
+		if len(in.Witness) > 1 {
+			pubkey, err := btcec.ParsePubKey(in.Witness[1], btcec.S256())
+			if err != nil {
+				continue
+			}
 			p := payment.FromPublicKey(pubkey, network, nil)
 
 			script := hex.EncodeToString(p.WitnessScript)
-- 
2.43.0


From 01324c20d8fb58f976c931683193f0745c6108d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:05 +0000
Subject: [PATCH 43/71] fix: change outputs blinded with keys of other outputs

---
 internal/core/application/wallet_service.go | 39 ++++++++++++++++++---
 1 file changed, 34 insertions(+), 5 deletions(-)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 693aa6e..4481028 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -20,6 +20,7 @@ import (
 	"github.com/tdex-network/tdex-daemon/pkg/wallet"
 	"github.com/vulpemventures/go-elements/address"
 	"github.com/vulpemventures/go-elements/network"
+	"github.com/vulpemventures/go-elements/pset"
 	"github.com/vulpemventures/go-elements/transaction"
 )
 
@@ -1026,9 +1027,12 @@ func sendToMany(opts sendToManyOpts) (string, error) {
 	}
 
 	// update the list of output blinding keys with those of the eventual changes
-	outputsBlindingKeys := opts.outputsBlindingKeys
-	for _, v := range updateResult.ChangeOutputsBlindingKeys {
-		outputsBlindingKeys = append(outputsBlindingKeys, v)
+	outputsBlindingKeys, err := appendChangeBlindingKeys(
+		opts.outputsBlindingKeys,
+		updateResult,
+	)
+	if err != nil {
+		return "", err
 	}
 
 	// add inputs for paying network fees
@@ -1045,8 +1049,12 @@ func sendToMany(opts sendToManyOpts) (string, error) {
 	}
 
 	// again, add changes' blinding keys to the list of those of the outputs
-	for _, v := range feeUpdateResult.ChangeOutputsBlindingKeys {
-		outputsBlindingKeys = append(outputsBlindingKeys, v)
+	outputsBlindingKeys, err = appendChangeBlindingKeys(
+		outputsBlindingKeys,
+		feeUpdateResult,
+	)
+	if err != nil {
+		return "", err
 	}
 
 	// blind the transaction
@@ -1091,6 +1099,27 @@ func sendToMany(opts sendToManyOpts) (string, error) {
 	return txHex, nil
 }
 
+// appendChangeBlindingKeys adds the blinding keys of the change outputs of the
+// updated tx to the given list, respecting the order of the outputs.
+func appendChangeBlindingKeys(
+	blindingKeys [][]byte,
+	updateResult *wallet.UpdateTxResult,
+) ([][]byte, error) {
+	ptx, err := pset.NewPsetFromBase64(updateResult.PsetBase64)
+	if err != nil {
+		return nil, err
+	}
+	for i := len(blindingKeys); i < len(ptx.UnsignedTx.Outputs); i++ {
+		script := hex.EncodeToString(ptx.UnsignedTx.Outputs[i].Script)
+		key, ok := updateResult.ChangeOutputsBlindingKeys[script]
+		if !ok {
+			return nil, fmt.Errorf("missing blinding key for output %d", i)
+		}
+		blindingKeys = append(blindingKeys, key)
+	}
+	return blindingKeys, nil
+}
+
 func getDerivationPathsForUnspents(
 	account *domain.Account,
 	unspents []explorer.Utxo,
-- 
2.43.0


From bc9e422c4e842bb4e185e6d9c1538d4acc4fa6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:27 +0000
Subject: [PATCH 44/71] fix: change amount can underflow if fees exceed the
 estimated ones

---
 pkg/wallet/transaction.go | 52 +++++++++++++++++++++++++++++++++------
 1 file changed, 44 insertions(+), 8 deletions(-)

diff --git a/pkg/wallet/transaction.go b/pkg/wallet/transaction.go
index 328bca4..d469a9f 100644
--- a/pkg/wallet/transaction.go
+++ b/pkg/wallet/transaction.go
@@ -396,18 +396,20 @@ func (w *Wallet) UpdateTx(opts UpdateTxOpts) (*UpdateTxResult, error) {
 					outputsToAdd[changeOutputIndex].Value, _ = bufferutil.ValueToBytes(changeAmount - feeAmount)
 				} else {
 					unspents := getRemainingUnspents(opts.Unspents, inputsToAdd)
-					selectedUnspents, change, err := explorer.SelectUnspents(
+					selectedUnspents, change, fee, err := selectUnspentsForFees(
+						ptx,
 						unspents,
-						DummyFeeAmount,
 						opts.Network.AssetID,
+						len(inputsToAdd),
+						len(outputsToAdd),
+						opts.MilliSatsPerBytes,
 					)
 					if err != nil {
 						return nil, err
 					}
 					inputsToAdd = append(inputsToAdd, selectedUnspents...)
 
-					feeAmount = calcFeeAmount(ptx, len(inputsToAdd), len(outputsToAdd), opts.MilliSatsPerBytes)
-					change += DummyFeeAmount - feeAmount
+					feeAmount = fee
 					outputsToAdd[changeOutputIndex].Value, _ = bufferutil.ValueToBytes(changeAmount + change)
 
 				}
@@ -417,18 +419,20 @@ func (w *Wallet) UpdateTx(opts UpdateTxOpts) (*UpdateTxResult, error) {
 				// inputs to add to the tx and add another output for the eventual change
 				// returned by the coin selection
 				unspents := getRemainingUnspents(opts.Unspents, inputsToAdd)
-				selectedUnspents, change, err := explorer.SelectUnspents(
+				selectedUnspents, change, fee, err := selectUnspentsForFees(
+					ptx,
 					unspents,
-					DummyFeeAmount,
 					opts.Network.AssetID,
+					len(inputsToAdd),
+					len(outputsToAdd)+1,
+					opts.MilliSatsPerBytes,
 				)
 				if err != nil {
 					return nil, err
 				}
 				inputsToAdd = append(inputsToAdd, selectedUnspents...)
 
-				feeAmount = calcFeeAmount(ptx, len(inputsToAdd), len(outputsToAdd)+1, opts.MilliSatsPerBytes)
-				change += DummyFeeAmount - feeAmount
+				feeAmount = fee
 
 				lbtcChangeOutput, _ := newTxOutput(
 					opts.Network.AssetID,
@@ -467,6 +471,38 @@ func (w *Wallet) UpdateTx(opts UpdateTxOpts) (*UpdateTxResult, error) {
 	}, nil
 }
 
+// selectUnspentsForFees selects the LBTC unspents for paying the network fees
+// of a tx with the given number of already selected inputs and outputs. It
+// returns the selected unspents, the change left once the fees are paid, and
+// the fee amount. The selection is repeated with a greater target in case the
+// selected unspents don't cover the fees.
+func selectUnspentsForFees(
+	ptx *pset.Pset,
+	unspents []explorer.Utxo,
+	lbtcAsset string,
+	numIns, numOuts, milliSatsPerBytes int,
+) ([]explorer.Utxo, uint64, uint64, error) {
+	target := DummyFeeAmount
+	for {
+		selectedUnspents, change, err := explorer.SelectUnspents(
+			unspents,
+			target,
+			lbtcAsset,
+		)
+		if err != nil {
+			return nil, 0, 0, err
+		}
+
+		feeAmount := calcFeeAmount(
+			ptx, numIns+len(selectedUnspents), numOuts, milliSatsPerBytes,
+		)
+		if total := target + change; total > feeAmount {
+			return selectedUnspents, total - feeAmount, feeAmount, nil
+		}
+		target = feeAmount + 1
+	}
+}
+
 // FinalizeAndExtractTransactionOpts is the struct given to FinalizeAndExtractTransaction method
 type FinalizeAndExtractTransactionOpts struct {
 	PsetBase64 string
-- 
2.43.0


From fb2327952443b0f9ced772d25f239c66421d5c2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:50 +0000
Subject: [PATCH 45/71] fix: panic adding change outputs if their script cannot
 be derived

---
 pkg/wallet/transaction.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/pkg/wallet/transaction.go b/pkg/wallet/transaction.go
index d469a9f..432ed2d 100644
--- a/pkg/wallet/transaction.go
+++ b/pkg/wallet/transaction.go
@@ -164,18 +164,24 @@ func (w *Wallet) UpdateSwapTx(opts UpdateSwapTxOpts) (string, []explorer.Utxo, e
 		return "", nil, err
 	}
 
-	_, script, _ := w.DeriveConfidentialAddress(DeriveConfidentialAddressOpts{
+	_, script, err := w.DeriveConfidentialAddress(DeriveConfidentialAddressOpts{
 		DerivationPath: opts.OutputDerivationPath,
 		Network:        opts.Network,
 	})
+	if err != nil {
+		return "", nil, err
+	}
 	output, _ := newTxOutput(opts.OutputAsset, opts.OutputAmount, script)
 
 	outputsToAdd := []*transaction.TxOutput{output}
 	if change > 0 {
-		_, script, _ := w.DeriveConfidentialAddress(DeriveConfidentialAddressOpts{
+		_, script, err := w.DeriveConfidentialAddress(DeriveConfidentialAddressOpts{
 			DerivationPath: opts.ChangeDerivationPath,
 			Network:        opts.Network,
 		})
+		if err != nil {
+			return "", nil, err
+		}
 
 		changeOutput, _ := newTxOutput(opts.InputAsset, change, script)
 		outputsToAdd = append(outputsToAdd, changeOutput)
@@ -344,12 +350,15 @@ func (w *Wallet) UpdateTx(opts UpdateTxOpts) (*UpdateTxResult, error) {
 				inputsToAdd = append(inputsToAdd, selectedUnspents...)
 
 				if change > 0 {
-					_, script, _ := w.DeriveConfidentialAddress(
+					_, script, err := w.DeriveConfidentialAddress(
 						DeriveConfidentialAddressOpts{
 							DerivationPath: opts.ChangePathsByAsset[asset],
 							Network:        opts.Network,
 						},
 					)
+					if err != nil {
+						return nil, err
+					}
 
 					changeOutput, _ := newTxOutput(asset, change, script)
 					outputsToAdd = append(outputsToAdd, changeOutput)
@@ -373,12 +382,15 @@ func (w *Wallet) UpdateTx(opts UpdateTxOpts) (*UpdateTxResult, error) {
 		}
 
 		if opts.WantChangeForFees {
-			_, lbtcChangeScript, _ := w.DeriveConfidentialAddress(
+			_, lbtcChangeScript, err := w.DeriveConfidentialAddress(
 				DeriveConfidentialAddressOpts{
 					DerivationPath: opts.ChangePathsByAsset[opts.Network.AssetID],
 					Network:        opts.Network,
 				},
 			)
+			if err != nil {
+				return nil, err
+			}
 
 			// if a LBTC change output already exists and its value covers the
 			// estimated fee amount, it's enough to add the fee output and updating
@@ -441,11 +453,14 @@ func (w *Wallet) UpdateTx(opts UpdateTxOpts) (*UpdateTxResult, error) {
 				)
 				outputsToAdd = append(outputsToAdd, lbtcChangeOutput)
 
-				lbtcChangePrvBlindingKey, lbtcChangePubBlindingKey, _ := w.DeriveBlindingKeyPair(
+				lbtcChangePrvBlindingKey, lbtcChangePubBlindingKey, err := w.DeriveBlindingKeyPair(
 					DeriveBlindingKeyPairOpts{
 						Script: lbtcChangeScript,
 					},
 				)
+				if err != nil {
+					return nil, err
+				}
 
 				if opts.WantPrivateBlindKeys {
 					changeOutputsBlindingKeys[hex.EncodeToString(lbtcChangeScript)] =
-- 
2.43.0


From e6965ecc90d827d11946197c32f1f26f85988b18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:02 +0000
Subject: [PATCH 46/71] fix: panic blinding a tx without the blinding data of
 all its inputs

---
 pkg/wallet/blind.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/wallet/blind.go b/pkg/wallet/blind.go
index 4d038ae..6d0fd28 100644
--- a/pkg/wallet/blind.go
+++ b/pkg/wallet/blind.go
@@ -254,6 +254,11 @@ func (o BlindTransactionWithDataOpts) validate() error {
 			return err
 		}
 	}
+	for i := range ptx.Inputs {
+		if _, ok := o.InputBlindingData[i]; !ok {
+			return fmt.Errorf("missing blinding data for input %d", i)
+		}
+	}
 
 	if len(o.OutputBlindingKeys) != len(ptx.Outputs) {
 		return ErrInvalidOutputBlindingKeysLen
-- 
2.43.0


From df2edc5eb912c38d37e3a757ceb21a9f2647c7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:19 +0000
Subject: [PATCH 47/71] fix: panic signing a proposal if the address of a
 selected input is unknown

---
 internal/core/application/trade_service.go | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/internal/core/application/trade_service.go b/internal/core/application/trade_service.go
index ba259e6..e07b9a7 100644
--- a/internal/core/application/trade_service.go
+++ b/internal/core/application/trade_service.go
@@ -872,7 +872,10 @@ func fillProposal(opts FillProposalOpts) (*FillProposalResult, error) {
 
 	// get the derivation paths of the selected inputs
 	allInfo := append(opts.MarketInfo, opts.FeeInfo...)
-	selectedInfo := getSelectedInfo(allInfo, selectedUnspents)
+	selectedInfo, err := getSelectedInfo(allInfo, selectedUnspents)
+	if err != nil {
+		return nil, err
+	}
 
 	signedPsetBase64 := blindedPlusFees.PsetBase64
 	for i := 0; i < inputsToSign; i++ {
@@ -901,7 +904,10 @@ func fillProposal(opts FillProposalOpts) (*FillProposalResult, error) {
 	}, nil
 }
 
-func getSelectedInfo(allInfo domain.AddressesInfo, utxos []explorer.Utxo) domain.AddressesInfo {
+func getSelectedInfo(
+	allInfo domain.AddressesInfo,
+	utxos []explorer.Utxo,
+) (domain.AddressesInfo, error) {
 	contains := func(script string) *domain.AddressInfo {
 		for _, info := range allInfo {
 			if info.Script == script {
@@ -914,11 +920,13 @@ func getSelectedInfo(allInfo domain.AddressesInfo, utxos []explorer.Utxo) domain
 	selectedInfo := make(domain.AddressesInfo, 0)
 	for _, u := range utxos {
 		script := hex.EncodeToString(u.Script())
-		if info := contains(script); info != nil {
-			selectedInfo = append(selectedInfo, *info)
+		info := contains(script)
+		if info == nil {
+			return nil, fmt.Errorf("missing address info for selected input %s:%d", u.Hash(), u.Index())
 		}
+		selectedInfo = append(selectedInfo, *info)
 	}
-	return selectedInfo
+	return selectedInfo, nil
 }
 
 func getUnspentKeys(unspents []explorer.Utxo) []domain.UnspentKey {
-- 
2.43.0


From f3010a08ba380716b9b8e52bf314e3ef100d333f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:15 +0000
Subject: [PATCH 48/71] fix: trade client panics if the proposal cannot be sent

The error of the TradePropose call was not checked: the accept message of a
missing reply was returned with no error.
---
 pkg/trade/buy.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/trade/buy.go b/pkg/trade/buy.go
index 75f6891..8ea6083 100644
--- a/pkg/trade/buy.go
+++ b/pkg/trade/buy.go
@@ -193,6 +193,9 @@ func (t *Trade) marketOrderRequest(
 		SwapRequest: swapRequestMsg,
 		TradeType:   tradeType,
 	})
+	if err != nil {
+		return nil, err
+	}
 
 	if fail := reply.GetSwapFail(); fail != nil {
 		return nil, fmt.Errorf("trade proposal has been rejected for reason: %s", fail.GetFailureMessage())
-- 
2.43.0


From 3905fb5db0d8731e37699995e0d569ed6ce126e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:15 +0000
Subject: [PATCH 49/71] fix: trade client panics if the server replies with no
 price

---
 pkg/trade/preview.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/trade/preview.go b/pkg/trade/preview.go
index c2d7d18..eb395b4 100644
--- a/pkg/trade/preview.go
+++ b/pkg/trade/preview.go
@@ -18,6 +18,8 @@ var (
 	ErrInvalidTradeType = errors.New("trade type must be either BUY or SELL")
 	// ErrInvalidAmount ...
 	ErrInvalidAmount = errors.New("amount must be a positive satoshi amount")
+	// ErrMissingPrice ...
+	ErrMissingPrice = errors.New("the server replied with no price for the market")
 )
 
 // PreviewOpts is the struct given to Preview method
@@ -69,6 +71,9 @@ func (t *Trade) Preview(opts PreviewOpts) (*PreviewResult, error) {
 	if err != nil {
 		return nil, err
 	}
+	if len(reply.GetPrices()) <= 0 {
+		return nil, ErrMissingPrice
+	}
 	preview := reply.GetPrices()[0]
 
 	assetToSend := preview.GetAsset()
-- 
2.43.0


From 8bc4834535799d0e3ec520a569b1935208d47b9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:15 +0000
Subject: [PATCH 50/71] fix: trade client ignores errors building, decoding and
 signing transactions

Inputs that cannot be parsed, invalid accept messages and failed signatures
went unnoticed, an input without prevout made Sign panic.
---
 pkg/trade/buy.go    |  4 +++-
 pkg/trade/wallet.go | 21 ++++++++++++++++-----
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/pkg/trade/buy.go b/pkg/trade/buy.go
index 8ea6083..00a604d 100644
--- a/pkg/trade/buy.go
+++ b/pkg/trade/buy.go
@@ -206,7 +206,9 @@ func (t *Trade) marketOrderRequest(
 
 func (t *Trade) marketOrderComplete(swapAcceptMsg []byte, w *Wallet) (string, error) {
 	swapAccept := &pb.SwapAccept{}
-	proto.Unmarshal(swapAcceptMsg, swapAccept)
+	if err := proto.Unmarshal(swapAcceptMsg, swapAccept); err != nil {
+		return "", err
+	}
 
 	psetBase64 := swapAccept.GetTransaction()
 	signedPset, err := w.Sign(psetBase64)
diff --git a/pkg/trade/wallet.go b/pkg/trade/wallet.go
index ffcb7a7..5af7a72 100644
--- a/pkg/trade/wallet.go
+++ b/pkg/trade/wallet.go
@@ -36,12 +36,18 @@ func NewSwapTx(
 		return "", err
 	}
 
-	updater, _ := pset.NewUpdater(ptx)
+	updater, err := pset.NewUpdater(ptx)
+	if err != nil {
+		return "", err
+	}
 
 	for _, in := range selectedUnspents {
-		input, witnessUtxo, _ := in.Parse()
+		input, witnessUtxo, err := in.Parse()
+		if err != nil {
+			return "", err
+		}
 		updater.AddInput(input)
-		err := updater.AddInWitnessUtxo(witnessUtxo, len(ptx.Inputs)-1)
+		err = updater.AddInWitnessUtxo(witnessUtxo, len(ptx.Inputs)-1)
 		if err != nil {
 			return "", err
 		}
@@ -113,6 +119,9 @@ func (w *Wallet) Sign(psetBase64 string) (string, error) {
 
 	for i, in := range ptx.Inputs {
 		script, witnessScript := w.Script()
+		if in.WitnessUtxo == nil {
+			continue
+		}
 		if bytes.Equal(in.WitnessUtxo.Script, witnessScript) {
 			hashForSignature := ptx.UnsignedTx.HashForWitnessV0(
 				i,
@@ -134,13 +143,15 @@ func (w *Wallet) Sign(psetBase64 string) (string, error) {
 			}
 
 			sigWithSigHashType := append(signature.Serialize(), byte(txscript.SigHashAll))
-			_, err = updater.Sign(
+			if _, err := updater.Sign(
 				i,
 				sigWithSigHashType,
 				w.privateKey.PubKey().SerializeCompressed(),
 				nil,
 				nil,
-			)
+			); err != nil {
+				return "", err
+			}
 		}
 	}
 
-- 
2.43.0


From 7ce7307778a4f852b569a2d70a743b0132b51fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:17 +0000
Subject: [PATCH 51/71] fix: trade client lets the server choose the asset to
 trade

The asset of the previewed amount was taken from the reply of the server: one
quoting another asset than the other one of the market made the client spend,
or ask for, that asset.
---
 pkg/trade/preview.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/pkg/trade/preview.go b/pkg/trade/preview.go
index eb395b4..19452f8 100644
--- a/pkg/trade/preview.go
+++ b/pkg/trade/preview.go
@@ -20,6 +20,10 @@ var (
 	ErrInvalidAmount = errors.New("amount must be a positive satoshi amount")
 	// ErrMissingPrice ...
 	ErrMissingPrice = errors.New("the server replied with no price for the market")
+	// ErrInvalidPriceAsset ...
+	ErrInvalidPriceAsset = errors.New(
+		"the amount of the price is not of the other asset of the market",
+	)
 )
 
 // PreviewOpts is the struct given to Preview method
@@ -76,6 +80,14 @@ func (t *Trade) Preview(opts PreviewOpts) (*PreviewResult, error) {
 	}
 	preview := reply.GetPrices()[0]
 
+	otherAsset := opts.Market.QuoteAsset
+	if opts.Asset == opts.Market.QuoteAsset {
+		otherAsset = opts.Market.BaseAsset
+	}
+	if preview.GetAsset() != otherAsset {
+		return nil, ErrInvalidPriceAsset
+	}
+
 	assetToSend := preview.GetAsset()
 	amountToSend := preview.GetAmount()
 	assetToReceive := opts.Asset
-- 
2.43.0


From aab6e074a7224721306820faac7770ed9cad70bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:44 +0000
Subject: [PATCH 52/71] fix: transactions of an address listed by esplora are
 all empty

---
 pkg/explorer/esplora/types.go | 150 +++++++++++++++++++++++-----------
 1 file changed, 102 insertions(+), 48 deletions(-)

diff --git a/pkg/explorer/esplora/types.go b/pkg/explorer/esplora/types.go
index 5dd87ff..613e83f 100644
--- a/pkg/explorer/esplora/types.go
+++ b/pkg/explorer/esplora/types.go
@@ -7,7 +7,6 @@ import (
 
 	"github.com/tdex-network/tdex-daemon/pkg/bufferutil"
 	"github.com/tdex-network/tdex-daemon/pkg/explorer"
-	"github.com/vulpemventures/go-elements/elementsutil"
 	"github.com/vulpemventures/go-elements/transaction"
 )
 
@@ -25,13 +24,70 @@ type tx struct {
 	TxConfirmed bool
 }
 
+// txJSON is the format used by Esplora for a transaction
+type txJSON struct {
+	Hash     string       `json:"txid"`
+	Version  int          `json:"version"`
+	Locktime int          `json:"locktime"`
+	Inputs   []inputJSON  `json:"vin"`
+	Outputs  []outputJSON `json:"vout"`
+	Size     int          `json:"size"`
+	Weight   int          `json:"weight"`
+	Status   status       `json:"status"`
+}
+
+type inputJSON struct {
+	Hash     string   `json:"txid"`
+	Index    uint32   `json:"vout"`
+	Script   string   `json:"scriptsig"`
+	Witness  []string `json:"witness"`
+	Sequence uint32   `json:"sequence"`
+	IsPegin  bool     `json:"is_pegin"`
+}
+
+type outputJSON struct {
+	Asset           string `json:"asset"`
+	Value           uint64 `json:"value"`
+	AssetCommitment string `json:"assetcommitment"`
+	ValueCommitment string `json:"valuecommitment"`
+	Script          string `json:"scriptpubkey"`
+}
+
 // NewTxFromJSON is the factory for a Transaction in given its JSON format.
-func NewTxFromJSON(txJSON string) (explorer.Transaction, error) {
-	t := &tx{}
-	if err := json.Unmarshal([]byte(txJSON), t); err != nil {
+func NewTxFromJSON(txString string) (explorer.Transaction, error) {
+	t := txJSON{}
+	if err := json.Unmarshal([]byte(txString), &t); err != nil {
 		return nil, fmt.Errorf("invalid tx JSON")
 	}
-	return t, nil
+
+	inputs := make([]*transaction.TxInput, 0, len(t.Inputs))
+	for _, i := range t.Inputs {
+		in, err := parseInput(i)
+		if err != nil {
+			return nil, fmt.Errorf("invalid tx input: %w", err)
+		}
+		inputs = append(inputs, in)
+	}
+
+	outputs := make([]*transaction.TxOutput, 0, len(t.Outputs))
+	for _, o := range t.Outputs {
+		out, err := parseOutput(o)
+		if err != nil {
+			return nil, fmt.Errorf("invalid tx output: %w", err)
+		}
+		outputs = append(outputs, out)
+	}
+
+	return &tx{
+		TxHash:      t.Hash,
+		TxVersion:   t.Version,
+		TxLocktime:  t.Locktime,
+		TxInputs:    inputs,
+		TxOutputs:   outputs,
+		TxSize:      t.Size,
+		TxWeight:    t.Weight,
+		TxConfirmed: t.Status.Confirmed,
+	}, nil
 }
 
 func NewTxFromHex(txhex string, confirmed bool) (explorer.Transaction, error) {
@@ -84,63 +140,61 @@ func (t *tx) Confirmed() bool {
 	return t.TxConfirmed
 }
 
-func parseInput(i interface{}) *transaction.TxInput {
-	m := i.(map[string]interface{})
-
-	txid := interfaceToBytes(m["txid"])
-	vout := uint32(m["vout"].(float64))
-	in := transaction.NewTxInput(elementsutil.ReverseBytes(txid), vout)
-
-	in.Script = interfaceToBytes(m["scriptsig"])
-
-	if m["witness"] != nil {
-		in.Witness = parseWitness(m["witness"])
+func parseInput(i inputJSON) (*transaction.TxInput, error) {
+	hash, err := bufferutil.TxIDToBytes(i.Hash)
+	if err != nil {
+		return nil, err
+	}
+	script, err := hex.DecodeString(i.Script)
+	if err != nil {
+		return nil, err
 	}
 
-	in.Sequence = uint32(m["sequence"].(float64))
-	in.IsPegin = m["is_pegin"].(bool)
+	in := transaction.NewTxInput(hash, i.Index)
+	in.Script = script
+	in.Sequence = i.Sequence
+	in.IsPegin = i.IsPegin
+	for _, wit := range i.Witness {
+		buf, err := hex.DecodeString(wit)
+		if err != nil {
+			return nil, err
+		}
+		in.Witness = append(in.Witness, buf)
+	}
 
 	// TODO: parse issuance
-	return in
+	return in, nil
 }
 
-func parseOutput(i interface{}) *transaction.TxOutput {
-	m := i.(map[string]interface{})
-
-	asset := make([]byte, 33)
-	if m["asset"] != nil {
-		asset, _ = bufferutil.AssetHashToBytes(m["asset"].(string))
+func parseOutput(o outputJSON) (*transaction.TxOutput, error) {
+	var asset, value []byte
+	var err error
+	if len(o.AssetCommitment) > 0 {
+		asset, err = bufferutil.CommitmentToBytes(o.AssetCommitment)
 	} else {
-		asset = interfaceToBytes(m["assetcommitment"])
+		asset, err = bufferutil.AssetHashToBytes(o.Asset)
+	}
+	if err != nil {
+		return nil, err
 	}
 
-	value := make([]byte, 0)
-	if m["value"] != nil {
-		value, _ = bufferutil.ValueToBytes(uint64(m["value"].(float64)))
+	if len(o.ValueCommitment) > 0 {
+		value, err = bufferutil.CommitmentToBytes(o.ValueCommitment)
 	} else {
-		value = interfaceToBytes(m["valuecommitment"])
+		value, err = bufferutil.ValueToBytes(o.Value)
+	}
+	if err != nil {
+		return nil, err
+	}
+
+	script, err := hex.DecodeString(o.Script)
+	if err != nil {
+		return nil, err
 	}
-	script := interfaceToBytes(m["scriptpubkey"])
 
 	// TODO: parse nonce and proof; these values must be retrieved by parsing the
 	// hex of the transaction like done in getUtxoDetails
-	return transaction.NewTxOutput(asset, value, script)
-}
-
-func interfaceToBytes(i interface{}) []byte {
-	s := i.(string)
-	buf, _ := hex.DecodeString(s)
-	return buf
-}
-
-func parseWitness(i interface{}) transaction.TxWitness {
-	witnesses := i.([]interface{})
-	buf := make(transaction.TxWitness, 0, len(witnesses))
-	for _, wit := range witnesses {
-		b := interfaceToBytes(wit)
-		buf = append(buf, b)
-	}
-	return buf
+	return transaction.NewTxOutput(asset, value, script), nil
 }
 
 /**** UTXO *****/
-- 
2.43.0


From c01f2af3498a0c834a912d51c73bde4c775e5b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:44 +0000
Subject: [PATCH 53/71] fix: explorers panic if the transaction of a coin is
 malformed

---
 pkg/explorer/elements/unspents.go |  6 ++++++
 pkg/explorer/esplora/unspents.go  | 12 +++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/pkg/explorer/elements/unspents.go b/pkg/explorer/elements/unspents.go
index d68ce9b..4c4d99f 100644
--- a/pkg/explorer/elements/unspents.go
+++ b/pkg/explorer/elements/unspents.go
@@ -147,6 +147,12 @@ func (e *elements) getUtxoDetails(
 		chRes <- utxoResult{err: err}
 		return
 	}
+	if int(utxo.Index()) >= len(tx.Outputs) {
+		chRes <- utxoResult{err: fmt.Errorf(
+			"output %d of tx %s does not exist", utxo.Index(), utxo.Hash(),
+		)}
+		return
+	}
 	utxo.UNonce = tx.Outputs[utxo.Index()].Nonce
 	utxo.URangeProof = tx.Outputs[utxo.Index()].RangeProof
 	utxo.USurjectionProof = tx.Outputs[utxo.Index()].SurjectionProof
diff --git a/pkg/explorer/esplora/unspents.go b/pkg/explorer/esplora/unspents.go
index f8a5082..c5b177c 100644
--- a/pkg/explorer/esplora/unspents.go
+++ b/pkg/explorer/esplora/unspents.go
@@ -161,7 +161,17 @@ func (e *esplora) getUtxoDetails(
 		chRes <- utxoResult{err: err}
 		return
 	}
-	trx, _ := transaction.NewTxFromHex(prevoutTxHex)
+	trx, err := transaction.NewTxFromHex(prevoutTxHex)
+	if err != nil {
+		chRes <- utxoResult{err: err}
+		return
+	}
+	if int(utxo.Index()) >= len(trx.Outputs) {
+		chRes <- utxoResult{err: fmt.Errorf(
+			"output %d of tx %s does not exist", utxo.Index(), utxo.Hash(),
+		)}
+		return
+	}
 	prevout := trx.Outputs[utxo.Index()]
 
 	if utxo.IsConfidential() {
-- 
2.43.0


From 668ddf696bb050ee1fad6df01c4c7bb73a95d216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:44 +0000
Subject: [PATCH 54/71] fix: explorers leak goroutines if one of many requests
 fails

---
 pkg/explorer/elements/transaction.go | 2 +-
 pkg/explorer/elements/unspents.go    | 2 +-
 pkg/explorer/esplora/transaction.go  | 2 +-
 pkg/explorer/esplora/unspents.go     | 6 +++---
 4 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/pkg/explorer/elements/transaction.go b/pkg/explorer/elements/transaction.go
index 935a1c4..4ebcf5a 100644
--- a/pkg/explorer/elements/transaction.go
+++ b/pkg/explorer/elements/transaction.go
@@ -123,7 +123,7 @@ func (e *elements) GetTransactionsForAddress(addr string, blindingKey []byte) ([
 		txids := info["txids"].([]interface{})
 
 		txs := make([]explorer.Transaction, 0, len(txids))
-		chRes := make(chan txResult)
+		chRes := make(chan txResult, len(txids))
 		wg := &sync.WaitGroup{}
 		wg.Add(len(txids))
 
diff --git a/pkg/explorer/elements/unspents.go b/pkg/explorer/elements/unspents.go
index 4c4d99f..0c8b85a 100644
--- a/pkg/explorer/elements/unspents.go
+++ b/pkg/explorer/elements/unspents.go
@@ -103,7 +103,7 @@ func (e *elements) toUtxos(unspents []elementsUnspent) ([]explorer.Utxo, error)
 	}
 
 	utxos := make([]explorer.Utxo, 0, len(unspents))
-	chRes := make(chan utxoResult)
+	chRes := make(chan utxoResult, len(unspents))
 	wg := &sync.WaitGroup{}
 	wg.Add(len(unspents))
 
diff --git a/pkg/explorer/esplora/transaction.go b/pkg/explorer/esplora/transaction.go
index 22fc37c..b4fb073 100644
--- a/pkg/explorer/esplora/transaction.go
+++ b/pkg/explorer/esplora/transaction.go
@@ -185,7 +185,7 @@ func parseTransactions(txList string) ([]explorer.Transaction, error) {
 	}
 
 	txs := make([]explorer.Transaction, 0, len(txInterfaces))
-	chRes := make(chan txResult)
+	chRes := make(chan txResult, len(txInterfaces))
 	wg := &sync.WaitGroup{}
 	wg.Add(len(txInterfaces))
 
diff --git a/pkg/explorer/esplora/unspents.go b/pkg/explorer/esplora/unspents.go
index c5b177c..64c27b2 100644
--- a/pkg/explorer/esplora/unspents.go
+++ b/pkg/explorer/esplora/unspents.go
@@ -26,7 +26,7 @@ func (e *esplora) GetUnspentsForAddresses(
 	addresses []string,
 	blindingKeys [][]byte,
 ) ([]explorer.Utxo, error) {
-	chRes := make(chan utxosResult)
+	chRes := make(chan utxosResult, len(addresses))
 	utxos := make([]explorer.Utxo, 0)
 	wg := &sync.WaitGroup{}
 	wg.Add(len(addresses))
@@ -78,7 +78,7 @@ func (e *esplora) getUtxos(addr string, blindingKeys [][]byte) ([]explorer.Utxo,
 	}
 
 	utxos := make([]explorer.Utxo, 0, len(witnessOuts))
-	chRes := make(chan utxoResult)
+	chRes := make(chan utxoResult, len(witnessOuts))
 	wg := &sync.WaitGroup{}
 	wg.Add(len(witnessOuts))
 
@@ -106,7 +106,7 @@ func (e *esplora) getUtxos(addr string, blindingKeys [][]byte) ([]explorer.Utxo,
 	}
 
 	if len(utxosToUnblind) > 0 {
-		chRes := make(chan utxoResult)
+		chRes := make(chan utxoResult, len(utxosToUnblind))
 		wg.Add(len(utxosToUnblind))
 
 		go func() {
-- 
2.43.0


From 1035f48b026a02f31c1a8954d8a6afdd62f51517 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:47 +0000
Subject: [PATCH 55/71] fix: transactions returned by the elements explorer
 panic and are never confirmed

---
 pkg/explorer/elements/types.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/pkg/explorer/elements/types.go b/pkg/explorer/elements/types.go
index f8df24c..2794f3e 100644
--- a/pkg/explorer/elements/types.go
+++ b/pkg/explorer/elements/types.go
@@ -12,13 +12,13 @@ import (
 )
 
 type tx struct {
-	TxHash      string      `json:"txid"`
-	TxVersion   int         `json:"version"`
-	TxLocktime  int         `json:"locktime"`
-	TxSize      int         `json:"size"`
-	TxWeight    int         `json:"weight"`
-	TxInputs    interface{} `json:"vin"`
-	TxOutputs   interface{} `json:"vout"`
+	TxHash      string
+	TxVersion   int
+	TxLocktime  int
+	TxSize      int
+	TxWeight    int
+	TxInputs    []*transaction.TxInput
+	TxOutputs   []*transaction.TxOutput
 	TxConfirmed bool
 }
 
@@ -41,11 +41,14 @@ func NewTxFromHex(txhex string, confirmed bool) (explorer.Transaction, error) {
 }
 
 func NewTxFromJSON(txJSON string) (explorer.Transaction, error) {
-	var t tx
+	var t struct {
+		Hex           string `json:"hex"`
+		Confirmations int64  `json:"confirmations"`
+	}
 	if err := json.Unmarshal([]byte(txJSON), &t); err != nil {
 		return nil, ErrInvalidTxJSON
 	}
-	return &t, nil
+	return NewTxFromHex(t.Hex, t.Confirmations > 0)
 }
 
 func (t *tx) Hash() string {
@@ -61,11 +64,11 @@ func (t *tx) Locktime() int {
 }
 
 func (t *tx) Inputs() []*transaction.TxInput {
-	return t.TxInputs.([]*transaction.TxInput)
+	return t.TxInputs
 }
 
 func (t *tx) Outputs() []*transaction.TxOutput {
-	return t.TxOutputs.([]*transaction.TxOutput)
+	return t.TxOutputs
 }
 
 func (t *tx) Size() int {
-- 
2.43.0


From 620386ad854afb310cd00612cdf7dab4204ecd39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:47 +0000
Subject: [PATCH 56/71] fix: elements explorer rounds down the value of coins

---
 pkg/explorer/elements/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/explorer/elements/types.go b/pkg/explorer/elements/types.go
index 2794f3e..0db8675 100644
--- a/pkg/explorer/elements/types.go
+++ b/pkg/explorer/elements/types.go
@@ -120,7 +120,7 @@ func (eu elementsUnspent) Index() uint32 {
 }
 
 func (eu elementsUnspent) Value() uint64 {
-	return uint64(eu.UAmount * math.Pow10(8))
+	return uint64(math.Round(eu.UAmount * math.Pow10(8)))
 }
 
 func (eu elementsUnspent) Asset() string {
-- 
2.43.0


From 95641d0142e274164f58658797e5be35a6fc579d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:47 +0000
Subject: [PATCH 57/71] fix: elements explorer imports watched addresses again

---
 pkg/explorer/elements/transaction.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/explorer/elements/transaction.go b/pkg/explorer/elements/transaction.go
index 4ebcf5a..ca7dc39 100644
--- a/pkg/explorer/elements/transaction.go
+++ b/pkg/explorer/elements/transaction.go
@@ -99,7 +99,7 @@ func (e *elements) GetTransactionsForAddress(addr string, blindingKey []byte) ([
 	if err != nil {
 		return nil, fmt.Errorf("label: %w", err)
 	}
-	isImportedAddress, err := e.isAddressImported(addr)
+	isImportedAddress, err := e.isAddressImported(addrLabel)
 	if err != nil {
 		return nil, fmt.Errorf("check import: %w", err)
 	}
-- 
2.43.0


From df8a00007e13d3f55566fad07fa7257aeca5b5ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:47 +0000
Subject: [PATCH 58/71] fix: explorers hide the results and errors of faucet
 and mint

---
 pkg/explorer/elements/transaction.go |  7 +++++--
 pkg/explorer/esplora/transaction.go  | 21 +++++++++++++++------
 2 files changed, 20 insertions(+), 8 deletions(-)

diff --git a/pkg/explorer/elements/transaction.go b/pkg/explorer/elements/transaction.go
index ca7dc39..bfe0fb0 100644
--- a/pkg/explorer/elements/transaction.go
+++ b/pkg/explorer/elements/transaction.go
@@ -210,7 +210,10 @@ func (e *elements) Mint(address string, amount float64) (string, string, error)
 	if err := json.Unmarshal(r.Result, &data); err != nil {
 		return "", "", fmt.Errorf("asset unmarshal: %w", err)
 	}
-	asset := data["asset"].(string)
+	asset, ok := data["asset"].(string)
+	if !ok {
+		return "", "", fmt.Errorf("asset unmarshal: missing asset")
+	}
 
 	r, err = e.client.call("sendtoaddress", []interface{}{address, amount, "", "", false, false, 1, "UNSET", asset})
 	if err = handleError(err, &r); err != nil {
@@ -225,7 +228,7 @@ func (e *elements) Mint(address string, amount float64) (string, string, error)
 		return "", "", fmt.Errorf("mine: %w", err)
 	}
 
-	return "", "", nil
+	return txid, asset, nil
 }
 
 func (e *elements) getTransaction(txid string) (map[string]interface{}, error) {
diff --git a/pkg/explorer/esplora/transaction.go b/pkg/explorer/esplora/transaction.go
index b4fb073..a74f053 100644
--- a/pkg/explorer/esplora/transaction.go
+++ b/pkg/explorer/esplora/transaction.go
@@ -88,10 +88,14 @@ func (e *esplora) Faucet(address string, amount float64, asset string) (string,
 		return "", fmt.Errorf(resp)
 	}
 
-	var rr map[string]string
-	json.Unmarshal([]byte(resp), &rr)
+	var rr struct {
+		TxID string `json:"txId"`
+	}
+	if err := json.Unmarshal([]byte(resp), &rr); err != nil {
+		return "", err
+	}
 
-	return rr["txId"], nil
+	return rr.TxID, nil
 }
 
 func (e *esplora) Mint(address string, amount float64) (string, string, error) {
@@ -112,10 +116,15 @@ func (e *esplora) Mint(address string, amount float64) (string, string, error) {
 		return "", "", fmt.Errorf(resp)
 	}
 
-	var rr map[string]string
-	json.Unmarshal([]byte(resp), &rr)
+	var rr struct {
+		TxID  string `json:"txId"`
+		Asset string `json:"asset"`
+	}
+	if err := json.Unmarshal([]byte(resp), &rr); err != nil {
+		return "", "", err
+	}
 
-	return rr["txId"], rr["asset"], nil
+	return rr.TxID, rr.Asset, nil
 }
 
 func (e *esplora) getTransactionHex(hash string) (string, error) {
-- 
2.43.0


From 23d1ae8ee4943d0dd3998b8a7d250c1d1c92d2fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:51 +0000
Subject: [PATCH 59/71] fix: elements explorer panics on unexpected answers

---
 pkg/explorer/elements/service.go     |  7 +++++--
 pkg/explorer/elements/transaction.go | 12 +++++++-----
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/pkg/explorer/elements/service.go b/pkg/explorer/elements/service.go
index 81a039c..c5d55ba 100644
--- a/pkg/explorer/elements/service.go
+++ b/pkg/explorer/elements/service.go
@@ -84,13 +84,13 @@ func (e *elements) isAddressImported(targetLabel string) (bool, error) {
 		return false, err
 	}
 
-	var labels []interface{}
+	var labels []string
 	if err := json.Unmarshal(r.Result, &labels); err != nil {
 		return false, fmt.Errorf("unmarshal: %w", err)
 	}
 
 	for _, label := range labels {
-		if label.(string) == targetLabel {
+		if label == targetLabel {
 			return true, nil
 		}
 	}
@@ -122,6 +122,9 @@ func (e *elements) mine() (string, error) {
 	if err := json.Unmarshal(r.Result, &blockHash); err != nil {
 		return "", fmt.Errorf("unmarshal: %w", err)
 	}
+	if len(blockHash) <= 0 {
+		return "", fmt.Errorf("unmarshal: missing block hash")
+	}
 	return blockHash[0], nil
 }
 
diff --git a/pkg/explorer/elements/transaction.go b/pkg/explorer/elements/transaction.go
index bfe0fb0..23b09d4 100644
--- a/pkg/explorer/elements/transaction.go
+++ b/pkg/explorer/elements/transaction.go
@@ -59,7 +59,8 @@ func (e *elements) GetTransactionStatus(txid string) (map[string]interface{}, er
 		return nil, err
 	}
 
-	isConfirmed := data["confirmations"].(float64) > 0
+	confirmations, ok := data["confirmations"].(float64)
+	isConfirmed := ok && confirmations > 0
 	if isConfirmed {
 		r, err := e.client.call("getblock", []interface{}{data["blockhash"]})
 		if err = handleError(err, &r); err != nil {
@@ -113,14 +114,15 @@ func (e *elements) GetTransactionsForAddress(addr string, blindingKey []byte) ([
 	if err = handleError(err, &r); err != nil {
 		return nil, fmt.Errorf("list: %w", err)
 	}
-	var data []interface{}
+	var data []struct {
+		Txids []string `json:"txids"`
+	}
 	if err := json.Unmarshal(r.Result, &data); err != nil {
 		return nil, fmt.Errorf("unmarshal: %w", err)
 	}
 
 	if len(data) > 0 {
-		info := data[0].(map[string]interface{})
-		txids := info["txids"].([]interface{})
+		txids := data[0].Txids
 
 		txs := make([]explorer.Transaction, 0, len(txids))
 		chRes := make(chan txResult, len(txids))
@@ -134,7 +136,7 @@ func (e *elements) GetTransactionsForAddress(addr string, blindingKey []byte) ([
 
 		for i := range txids {
 			txid := txids[i]
-			go e.getTxDetails(txid.(string), chRes, wg)
+			go e.getTxDetails(txid, chRes, wg)
 		}
 
 		for r := range chRes {
-- 
2.43.0


From a31f85ebeaf431361fbea31515a16a4242931f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:41 +0000
Subject: [PATCH 60/71] fix: webhooks registered at the same time are lost

---
 internal/infrastructure/pubsub/webhook/service.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/internal/infrastructure/pubsub/webhook/service.go b/internal/infrastructure/pubsub/webhook/service.go
index c3f30d5..436f5d9 100644
--- a/internal/infrastructure/pubsub/webhook/service.go
+++ b/internal/infrastructure/pubsub/webhook/service.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"fmt"
 	"net/http"
+	"sync"
 
 	"github.com/dgrijalva/jwt-go"
 	"github.com/sony/gobreaker"
@@ -18,6 +19,9 @@ type webhookService struct {
 	store      webhookStore
 	httpClient *esplora.Client
 	cb         *gobreaker.CircuitBreaker
+
+	// mtx serializes the updates of the lists of hooks grouped by action.
+	mtx sync.Mutex
 }
 
 func NewWebhookPubSubService(
@@ -109,6 +113,9 @@ func (ws *webhookService) TopicsByLabel() map[string]ports.Topic {
 // NOTE: The generation of the hook ID can be assumed enough random to infer
 // that if 2 hooks have the same id, then they are the same.
 func (ws *webhookService) addWebhook(hook *Webhook) (string, error) {
+	ws.mtx.Lock()
+	defer ws.mtx.Unlock()
+
 	hookID := []byte(hook.ID)
 	hh, err := ws.store.db().GetFromBucket(hooksBucket, hookID)
 	if err != nil {
@@ -130,6 +137,9 @@ func (ws *webhookService) addWebhook(hook *Webhook) (string, error) {
 // managed by the handler. Nothing is done in case the hook does not actually
 // exist in the handler's store.db().
 func (ws *webhookService) removeWebhook(hookID string) error {
+	ws.mtx.Lock()
+	defer ws.mtx.Unlock()
+
 	buf, err := ws.store.db().GetFromBucket(hooksBucket, []byte(hookID))
 	if err != nil {
 		return err
-- 
2.43.0


From dc73b9477ed018a0174c6b5c679e966038f48bbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:41 +0000
Subject: [PATCH 61/71] fix: errors of the store are hidden when managing
 webhooks

---
 .../infrastructure/pubsub/webhook/service.go  | 96 +++++++++++++------
 1 file changed, 66 insertions(+), 30 deletions(-)

diff --git a/internal/infrastructure/pubsub/webhook/service.go b/internal/infrastructure/pubsub/webhook/service.go
index 436f5d9..affbad5 100644
--- a/internal/infrastructure/pubsub/webhook/service.go
+++ b/internal/infrastructure/pubsub/webhook/service.go
@@ -129,7 +129,9 @@ func (ws *webhookService) addWebhook(hook *Webhook) (string, error) {
 	if err := ws.store.db().AddToBucket(hooksBucket, hookID, hook.Serialize()); err != nil {
 		return "", err
 	}
-	ws.addHookByAction(hook)
+	if err := ws.addHookByAction(hook); err != nil {
+		return "", err
+	}
 	return hook.ID, nil
 }
 
@@ -148,20 +150,21 @@ func (ws *webhookService) removeWebhook(hookID string) error {
 		return nil
 	}
 
-	if err := ws.store.db().RemoveFromBucket(hooksBucket, []byte(hookID)); err != nil {
+	hook, err := NewWebhookFromBytes(buf)
+	if err != nil {
+		return err
+	}
+	if err := ws.removeHookByAction(hook); err != nil {
 		return err
 	}
 
-	hook, _ := NewWebhookFromBytes(buf)
-	ws.removeHookByAction(hook)
-	return nil
+	return ws.store.db().RemoveFromBucket(hooksBucket, []byte(hookID))
 }
 
 func (ws *webhookService) listWebhooksForAction(actionType WebhookAction) []ports.Subscription {
-	hooks := ws.getHooksByAction(actionType)
-	if actionType != AllActions {
-		hooksForAllActions := ws.getHooksByAction(AllActions)
-		hooks = append(hooks, hooksForAllActions...)
+	hooks, err := ws.getHooksToInvoke(actionType)
+	if err != nil {
+		return nil
 	}
 	subs := make([]ports.Subscription, len(hooks))
 	for i, h := range hooks {
@@ -175,10 +178,9 @@ func (ws *webhookService) listWebhooksForAction(actionType WebhookAction) []port
 // This method adopts a circuit breaker approach in order to maximize the
 // chances that every webhook gets invoked without errors.
 func (ws *webhookService) invokeWebhooksForAction(actionType WebhookAction, message string) error {
-	hooks := ws.getHooksByAction(actionType)
-	if actionType != AllActions {
-		hooksForAllActions := ws.getHooksByAction(AllActions)
-		hooks = append(hooks, hooksForAllActions...)
+	hooks, err := ws.getHooksToInvoke(actionType)
+	if err != nil {
+		return err
 	}
 
 	eg := &errgroup.Group{}
@@ -189,20 +191,29 @@ func (ws *webhookService) invokeWebhooksForAction(actionType WebhookAction, mess
 	return eg.Wait()
 }
 
-func (ws *webhookService) addHookByAction(hook *Webhook) {
+func (ws *webhookService) addHookByAction(hook *Webhook) error {
 	key := []byte{byte(hook.ActionType)}
-	hooks := ws.getSerializedHooks(hook.ActionType)
+	hooks, err := ws.getSerializedHooks(hook.ActionType)
+	if err != nil {
+		return err
+	}
 	hooks = append(hooks, hook.Serialize())
 	updatedHooks := bytes.Join(hooks, separator)
-	ws.store.db().AddToBucket(hooksByActionBucket, key, updatedHooks)
+	return ws.store.db().AddToBucket(hooksByActionBucket, key, updatedHooks)
 }
 
-func (ws *webhookService) removeHookByAction(hook *Webhook) {
-	rawHooks := ws.getSerializedHooks(hook.ActionType)
+func (ws *webhookService) removeHookByAction(hook *Webhook) error {
+	rawHooks, err := ws.getSerializedHooks(hook.ActionType)
+	if err != nil {
+		return err
+	}
 
 	var index int
 	for i, buf := range rawHooks {
-		hh, _ := NewWebhookFromBytes(buf)
+		hh, err := NewWebhookFromBytes(buf)
+		if err != nil {
+			return err
+		}
 		if hh.ID == hook.ID {
 			index = i
 			break
@@ -213,31 +224,56 @@ func (ws *webhookService) removeHookByAction(hook *Webhook) {
 	rawHooks = append(rawHooks[:index], rawHooks[index+1:]...)
 
 	if len(rawHooks) <= 0 {
-		ws.store.db().RemoveFromBucket(hooksByActionBucket, key)
-		return
+		return ws.store.db().RemoveFromBucket(hooksByActionBucket, key)
 	}
 
 	updatedHooks := bytes.Join(rawHooks, separator)
-	ws.store.db().AddToBucket(hooksByActionBucket, key, updatedHooks)
+	return ws.store.db().AddToBucket(hooksByActionBucket, key, updatedHooks)
+}
+
+// getHooksToInvoke returns the hooks registered for the given action and those
+// registered for all actions.
+func (ws *webhookService) getHooksToInvoke(actionType WebhookAction) ([]*Webhook, error) {
+	hooks, err := ws.getHooksByAction(actionType)
+	if err != nil {
+		return nil, err
+	}
+	if actionType != AllActions {
+		hooksForAllActions, err := ws.getHooksByAction(AllActions)
+		if err != nil {
+			return nil, err
+		}
+		hooks = append(hooks, hooksForAllActions...)
+	}
+	return hooks, nil
 }
 
-func (ws *webhookService) getHooksByAction(actionType WebhookAction) []*Webhook {
-	rawHooks := ws.getSerializedHooks(actionType)
+func (ws *webhookService) getHooksByAction(actionType WebhookAction) ([]*Webhook, error) {
+	rawHooks, err := ws.getSerializedHooks(actionType)
+	if err != nil {
+		return nil, err
+	}
 	hooks := make([]*Webhook, 0, len(rawHooks))
 	for _, buf := range rawHooks {
-		hook, _ := NewWebhookFromBytes(buf)
+		hook, err := NewWebhookFromBytes(buf)
+		if err != nil {
+			return nil, err
+		}
 		hooks = append(hooks, hook)
 	}
-	return hooks
+	return hooks, nil
 }
 
-func (ws *webhookService) getSerializedHooks(actionType WebhookAction) [][]byte {
+func (ws *webhookService) getSerializedHooks(actionType WebhookAction) ([][]byte, error) {
 	key := []byte{byte(actionType)}
-	hooks, _ := ws.store.db().GetFromBucket(hooksByActionBucket, key)
+	hooks, err := ws.store.db().GetFromBucket(hooksByActionBucket, key)
+	if err != nil {
+		return nil, err
+	}
 	if len(hooks) <= 0 {
-		return nil
+		return nil, nil
 	}
-	return bytes.Split(hooks, separator)
+	return bytes.Split(hooks, separator), nil
 }
 
 func (ws *webhookService) doRequest(hook *Webhook, payload string) error {
-- 
2.43.0


From 75b2619feeb21263c45e999a1fa5d033fb206b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:41 +0000
Subject: [PATCH 62/71] fix: removing a webhook may remove another one or panic

---
 internal/infrastructure/pubsub/webhook/service.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/infrastructure/pubsub/webhook/service.go b/internal/infrastructure/pubsub/webhook/service.go
index affbad5..da9b1ba 100644
--- a/internal/infrastructure/pubsub/webhook/service.go
+++ b/internal/infrastructure/pubsub/webhook/service.go
@@ -208,7 +208,7 @@ func (ws *webhookService) removeHookByAction(hook *Webhook) error {
 		return err
 	}
 
-	var index int
+	index := -1
 	for i, buf := range rawHooks {
 		hh, err := NewWebhookFromBytes(buf)
 		if err != nil {
@@ -220,6 +220,11 @@ func (ws *webhookService) removeHookByAction(hook *Webhook) error {
 		}
 	}
 
+	// nothing to remove, all the others must be preserved.
+	if index < 0 {
+		return nil
+	}
+
 	key := []byte{byte(hook.ActionType)}
 	rawHooks = append(rawHooks[:index], rawHooks[index+1:]...)
 
-- 
2.43.0


From d42be342dc2e6a20692ec44a7c4d852d7172c2ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:32 +0000
Subject: [PATCH 63/71] fix: listener panics if the market of a settled trade
 has been dropped

---
 internal/core/application/blockchain_listener.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/core/application/blockchain_listener.go b/internal/core/application/blockchain_listener.go
index 2f438ae..30cb104 100644
--- a/internal/core/application/blockchain_listener.go
+++ b/internal/core/application/blockchain_listener.go
@@ -199,6 +199,10 @@ func (b *blockchainListener) listenToEventChannel() {
 						log.WithError(err).Warn("an error occured while retrieving market")
 						return
 					}
+					if mkt == nil {
+						log.Warnf("unable to find market of trade with id %s", trade.ID)
+						return
+					}
 
 					info, err := b.repoManager.VaultRepository().GetAllDerivedAddressesInfoForAccount(
 						ctx, mktAccount,
-- 
2.43.0


From 65cfefa8b4d4df75fb6c9fd3df66c7ca55558cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:00:32 +0000
Subject: [PATCH 64/71] fix: pubsub store locked after the wallet is unlocked
 if it is still initializing

---
 internal/core/application/wallet_service.go | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index 4481028..f269896 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -258,16 +258,16 @@ func (w *walletService) InitWallet(
 	}
 
 	if w.blockchainListener.PubSubService() != nil {
-		go func() {
-			if err := w.blockchainListener.PubSubService().Store().Init(
-				passphrase,
-			); err != nil {
-				log.WithError(err).Warn(
-					"an error occured while initializing pubsub service. " +
-						"Pubsub not available for the current session.",
-				)
-			}
-		}()
+		// this must be done before the wallet can be unlocked, otherwise the store
+		// would be locked again while in use.
+		if err := w.blockchainListener.PubSubService().Store().Init(
+			passphrase,
+		); err != nil {
+			log.WithError(err).Warn(
+				"an error occured while initializing pubsub service. " +
+					"Pubsub not available for the current session.",
+			)
+		}
 	}
 
 	w.pwChan <- PassphraseMsg{
-- 
2.43.0


From a216a13115d7113870340f487107caa2db21c9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:23 +0000
Subject: [PATCH 65/71] fix: goroutines leak if the unspents of a restored
 address cannot be retrieved

---
 internal/core/application/wallet_service.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/core/application/wallet_service.go b/internal/core/application/wallet_service.go
index f269896..4424ff0 100644
--- a/internal/core/application/wallet_service.go
+++ b/internal/core/application/wallet_service.go
@@ -824,7 +824,8 @@ func (w *walletService) restoreUnspents(
 	info domain.AddressesInfo,
 	chRes chan *InitWalletReply,
 ) ([]domain.Unspent, error) {
-	chUnspentsInfo := make(chan unspentInfo)
+	// there's room for all results, nobody receives those following an error
+	chUnspentsInfo := make(chan unspentInfo, len(info))
 	unspents := make([]domain.Unspent, 0)
 	cb := circuitbreaker.NewCircuitBreaker()
 	wg := &sync.WaitGroup{}
-- 
2.43.0


From 2f061cf7a56b3a4714fdbd31dbd27638f331410c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:48 +0000
Subject: [PATCH 66/71] fix: fixed fees are missing in the list of trades

---
 internal/core/application/operator_service.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/core/application/operator_service.go b/internal/core/application/operator_service.go
index 531f273..01c3c4f 100644
--- a/internal/core/application/operator_service.go
+++ b/internal/core/application/operator_service.go
@@ -1333,7 +1333,9 @@ func tradeToTradeInfo(
 				QuoteAsset: trade.MarketQuoteAsset,
 			},
 			Fee{
-				BasisPoint: trade.MarketFee,
+				BasisPoint:    trade.MarketFee,
+				FixedBaseFee:  trade.MarketFixedBaseFee,
+				FixedQuoteFee: trade.MarketFixedQuoteFee,
 			},
 		},
 		Price:            Price(trade.MarketPrice),
-- 
2.43.0


From 40354e91cb89e727fc7f64bcebfbb19e790751fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:44 +0000
Subject: [PATCH 67/71] fix: in-memory utxos and balances of a repeated address
 are counted twice

---
 .../unspent_memory_repository_impl.go         | 38 ++++++++-----------
 1 file changed, 15 insertions(+), 23 deletions(-)

diff --git a/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go b/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go
index e4f94bc..762e8d7 100644
--- a/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go
+++ b/internal/infrastructure/storage/db/inmemory/unspent_memory_repository_impl.go
@@ -57,13 +57,11 @@ func (r UnspentRepositoryImpl) GetAllUnspentsForAddresses(
 	defer r.store.locker.Unlock()
 
 	results := make([]domain.Unspent, 0)
+	isIncluded := isOneOf(addresses)
 
 	for _, unspent := range r.store.unspents {
-		unspentAddress := unspent.Address
-		for _, addr := range addresses {
-			if unspentAddress == addr {
-				results = append(results, unspent)
-			}
+		if isIncluded(unspent.Address) {
+			results = append(results, unspent)
 		}
 	}
 
@@ -113,16 +111,10 @@ func (r UnspentRepositoryImpl) GetBalance(
 	addresses []string,
 	assetHash string,
 ) (uint64, error) {
-	balance := uint64(0)
-
 	r.store.locker.RLock()
 	defer r.store.locker.RUnlock()
 
-	for _, address := range addresses {
-		balance += r.getBalance(address, assetHash)
-	}
-
-	return balance, nil
+	return r.getBalance(isOneOf(addresses), assetHash), nil
 }
 
 // GetUnlockedBalance ...
@@ -131,16 +123,10 @@ func (r UnspentRepositoryImpl) GetUnlockedBalance(
 	addresses []string,
 	assetHash string,
 ) (uint64, error) {
-	balance := uint64(0)
-
 	r.store.locker.RLock()
 	defer r.store.locker.RUnlock()
 
-	for _, address := range addresses {
-		balance += r.getUnlockedBalance(address, assetHash)
-	}
-
-	return balance, nil
+	return r.getUnlockedBalance(isOneOf(addresses), assetHash), nil
 }
 
 // SpendUnspents ...
@@ -254,21 +240,27 @@ func (r UnspentRepositoryImpl) getAllUnspents(includeSpent bool) []domain.Unspen
 	return unspents
 }
 
-func (r UnspentRepositoryImpl) getBalance(address string, assetHash string) uint64 {
+func (r UnspentRepositoryImpl) getBalance(
+	isIncluded func(address string) bool,
+	assetHash string,
+) uint64 {
 	var balance uint64
 	for _, u := range r.store.unspents {
-		if u.Address == address && u.AssetHash == assetHash && !u.IsSpent() && u.IsConfirmed() {
+		if isIncluded(u.Address) && u.AssetHash == assetHash && !u.IsSpent() && u.IsConfirmed() {
 			balance += u.Value
 		}
 	}
 	return balance
 }
 
-func (r UnspentRepositoryImpl) getUnlockedBalance(address string, assetHash string) uint64 {
+func (r UnspentRepositoryImpl) getUnlockedBalance(
+	isIncluded func(address string) bool,
+	assetHash string,
+) uint64 {
 	var balance uint64
 
 	for _, u := range r.store.unspents {
-		if u.Address == address && u.AssetHash == assetHash &&
+		if isIncluded(u.Address) && u.AssetHash == assetHash &&
 			!u.IsSpent() && !u.IsLocked() && u.IsConfirmed() {
 			balance += u.Value
 		}
-- 
2.43.0


From 9184bfd577e538246c13fec3c5f71a9f8a7b87dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:18:47 +0000
Subject: [PATCH 68/71] fix: badger list of trades is empty instead of failing
 on errors

---
 .../storage/db/badger/trade_repository_impl.go             | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/internal/infrastructure/storage/db/badger/trade_repository_impl.go b/internal/infrastructure/storage/db/badger/trade_repository_impl.go
index 9a8f0ba..13495c1 100644
--- a/internal/infrastructure/storage/db/badger/trade_repository_impl.go
+++ b/internal/infrastructure/storage/db/badger/trade_repository_impl.go
@@ -34,7 +34,7 @@ func (t tradeRepositoryImpl) GetOrCreateTrade(
 func (t tradeRepositoryImpl) GetAllTrades(
 	ctx context.Context,
 ) ([]*domain.Trade, error) {
-	return t.getAllTrades(ctx), nil
+	return t.findTrades(ctx, nil)
 }
 
 func (t tradeRepositoryImpl) GetAllTradesByMarket(
@@ -217,8 +217,3 @@ func (t tradeRepositoryImpl) insertTrade(
 	}
 	return nil
 }
-
-func (t tradeRepositoryImpl) getAllTrades(ctx context.Context) []*domain.Trade {
-	trades, _ := t.findTrades(ctx, nil)
-	return trades
-}
-- 
2.43.0


From aef5a374380cfd73de26ab8e936c7072330b925c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:41 +0000
Subject: [PATCH 69/71] fix: default fee loses a basis point to rounding

---
 cmd/tdexd/main.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/cmd/tdexd/main.go b/cmd/tdexd/main.go
index 396a3c0..33ee74f 100644
--- a/cmd/tdexd/main.go
+++ b/cmd/tdexd/main.go
@@ -3,6 +3,7 @@ package main
 import (
 	"context"
 	"fmt"
+	"math"
 	"net/http"
 	"os"
 	"os/signal"
@@ -44,7 +45,7 @@ var (
 	operatorTLSExtraIPs     = config.GetStringSlice(config.OperatorExtraIPKey)
 	operatorTLSExtraDomains = config.GetStringSlice(config.OperatorExtraDomainKey)
 	// App services config
-	marketsFee                    = int64(config.GetFloat(config.DefaultFeeKey) * 100)
+	marketsFee                    = int64(math.Round(config.GetFloat(config.DefaultFeeKey) * 100))
 	marketsBaseAsset              = config.GetString(config.BaseAssetKey)
 	tradesExpiryDurationInSeconds = config.GetDuration(config.TradeExpiryTimeKey) * time.Second
 	pricesSlippagePercentage      = decimal.NewFromFloat(config.GetFloat(config.PriceSlippageKey))
-- 
2.43.0


From 22cb5cc59c20143c54dc2c46c702abf8730db343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:44 +0000
Subject: [PATCH 70/71] fix: webhooks time out after seconds instead of hours

---
 cmd/tdexd/main.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/tdexd/main.go b/cmd/tdexd/main.go
index 33ee74f..b21d589 100644
--- a/cmd/tdexd/main.go
+++ b/cmd/tdexd/main.go
@@ -55,7 +55,7 @@ var (
 	crawlerIntervalInMilliseconds = time.Duration(config.GetInt(config.CrawlIntervalKey)) * time.Millisecond
 	crawlerLimit                  = config.GetInt(config.CrawlLimitKey)
 	crawlerTokenBurst             = config.GetInt(config.CrawlTokenBurstKey)
-	explorerTimoutRequest         = config.GetDuration(config.ExplorerRequestTimeoutKey)
+	explorerTimoutRequest         = time.Duration(config.GetInt(config.ExplorerRequestTimeoutKey)) * time.Millisecond
 	cbMaxFailingRequest           = config.GetInt(config.CBMaxFailingRequestsKey)
 	cbFailingRatio                = config.GetFloat(config.CBFailingRatioKey)
 )
@@ -235,6 +235,6 @@ func newWebhookPubSubService(
 	if err != nil {
 		return nil, err
 	}
-	httpClient := esplora.NewHTTPClient(time.Duration(reqTimeout) * time.Second)
+	httpClient := esplora.NewHTTPClient(reqTimeout)
 	return webhookpubsub.NewWebhookPubSubService(secureStore, httpClient)
 }
-- 
2.43.0


From 88b42d87f431c61c17eb21da111d241f54540c31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:58:48 +0000
Subject: [PATCH 71/71] fix: settings out of range are accepted at startup

---
 config/config.go | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/config/config.go b/config/config.go
index 69f3756..d77a216 100644
--- a/config/config.go
+++ b/config/config.go
@@ -206,8 +206,8 @@ func validate() error {
 	}
 
 	percentageFee := GetFloat(DefaultFeeKey)
-	if percentageFee < MinDefaultPercentageFee ||
-		percentageFee > MaxDefaultPercentageFee {
+	if !(percentageFee >= MinDefaultPercentageFee &&
+		percentageFee <= MaxDefaultPercentageFee) {
 		return fmt.Errorf(
 			"percentage of the fee on each swap must be in range [%.2f, %.2f]",
 			MinDefaultPercentageFee, MaxDefaultPercentageFee,
@@ -237,14 +237,36 @@ func validate() error {
 	}
 
 	maxFailingReq := GetString(CBMaxFailingRequestsKey)
-	if _, err := strconv.Atoi(maxFailingReq); err != nil {
+	if n, err := strconv.Atoi(maxFailingReq); err != nil || n < 0 {
 		return fmt.Errorf("%s must be a valid number", CBMaxFailingRequestsKey)
 	}
 	failingRatio := GetString(CBFailingRatioKey)
-	if _, err := strconv.ParseFloat(failingRatio, 64); err != nil {
+	if r, err := strconv.ParseFloat(failingRatio, 64); err != nil || !(r > 0 && r < 1) {
 		return fmt.Errorf("%s must be a value in range (0, 1)", CBFailingRatioKey)
 	}
 
+	if slippage := GetFloat(PriceSlippageKey); !(slippage >= 0 && slippage < 1) {
+		return fmt.Errorf("%s must be a value in range [0, 1)", PriceSlippageKey)
+	}
+	if GetInt(FeeAccountBalanceThresholdKey) < 0 {
+		return fmt.Errorf("%s must not be negative", FeeAccountBalanceThresholdKey)
+	}
+	if GetInt(CrawlIntervalKey) <= 0 {
+		return fmt.Errorf("%s must be greater than zero", CrawlIntervalKey)
+	}
+	if GetInt(CrawlLimitKey) <= 0 {
+		return fmt.Errorf("%s must be greater than zero", CrawlLimitKey)
+	}
+	if GetInt(CrawlTokenBurstKey) <= 0 {
+		return fmt.Errorf("%s must be greater than zero", CrawlTokenBurstKey)
+	}
+	if GetDuration(TradeExpiryTimeKey) <= 0 {
+		return fmt.Errorf("%s must be greater than zero", TradeExpiryTimeKey)
+	}
+	if GetDuration(StatsIntervalKey) <= 0 {
+		return fmt.Errorf("%s must be greater than zero", StatsIntervalKey)
+	}
+
 	return nil
 }
 
-- 
2.43.0

