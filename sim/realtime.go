package fdosim

import "syscall"

// realNow is the host's monotonic clock in milliseconds; it is used for time
// budgets only and never reaches a simulated execution.
func realNow() int64 {
	var ts syscall.Timespec
	syscall.Syscall(syscall.SYS_CLOCK_GETTIME, 1, uintptr(ptr(&ts)), 0)
	return ts.Sec*1000 + ts.Nsec/1e6
}
