package fdosim

import (
	"syscall"
	"unsafe"

	badger "github.com/dgraph-io/badger/v4"
)

func ptr(t *syscall.Timespec) unsafe.Pointer { return unsafe.Pointer(t) }

func newDBNodes() map[*badger.DB]*Storage { return map[*badger.DB]*Storage{} }
