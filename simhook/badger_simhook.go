package badger

// Added by the simulator's build (lib/build.py) to a private copy of badger;
// the shipped badger module is not touched. Every hook is nil-safe.

import "sort"

var (
	// SimOp is called before every storage operation. A non-nil error is
	// returned to the caller instead of performing the operation.
	SimOp func(db *DB, op string, key []byte) error
	// SimOpen may supply the database an Open call returns.
	SimOpen func(opt Options) (*DB, bool, error)
	// SimClose returns true when the Close call must leave db open.
	SimClose func(db *DB) bool
)

func simOp(db *DB, op string, key []byte) error {
	if SimOp == nil {
		return nil
	}
	return SimOp(db, op, key)
}

func Open(opt Options) (*DB, error) {
	if SimOpen != nil {
		if db, ok, err := SimOpen(opt); ok {
			return db, err
		}
	}
	return openReal(opt)
}

func (db *DB) Close() error {
	if SimClose != nil && SimClose(db) {
		return nil
	}
	return db.closeReal()
}

func (db *DB) NewTransaction(update bool) *Txn {
	simOp(db, "begin", nil)
	return db.newTransactionReal(update)
}

func (txn *Txn) Get(key []byte) (item *Item, rerr error) {
	if err := simOp(txn.db, "get", key); err != nil {
		return nil, err
	}
	return txn.getReal(key)
}

func (txn *Txn) SetEntry(e *Entry) error {
	if err := simOp(txn.db, "set", e.Key); err != nil {
		return err
	}
	return txn.setEntryReal(e)
}

func (txn *Txn) Delete(key []byte) error {
	if err := simOp(txn.db, "delete", key); err != nil {
		return err
	}
	return txn.deleteReal(key)
}

func (txn *Txn) NewIterator(opt IteratorOptions) *Iterator {
	simOp(txn.db, "iter", opt.Prefix)
	return txn.newIteratorReal(opt)
}

func (txn *Txn) Commit() error {
	if SimOp == nil {
		return txn.commitReal()
	}
	db := txn.db
	var keys []string
	for k := range txn.pendingWrites {
		keys = append(keys, k)
	}
	if len(keys) == 0 {
		return txn.commitReal()
	}
	sort.Strings(keys)
	var all []byte
	for i, k := range keys {
		if i > 0 {
			all = append(all, '|')
		}
		all = append(all, k...)
	}
	if err := simOp(db, "commit", all); err != nil {
		txn.Discard()
		return err
	}
	if err := txn.commitReal(); err != nil {
		return err
	}
	return simOp(db, "committed", all)
}
