package checks

import (
	"fmt"
	"os"
	"strconv"
	"syscall"
	"time"

	"mc/sbx"
)

func init() {
	Helpers["umask"] = helperUmask
	Helpers["trace"] = helperTrace
}

func helperFail(err error) {
	fmt.Fprintln(os.Stderr, "helper:", err)
	os.Exit(97)
}

// helperUmask sets the umask and becomes the program.
func helperUmask(args []string) {
	m, err := strconv.ParseInt(args[0], 8, 32)
	if err != nil {
		helperFail(err)
	}
	syscall.Umask(int(m))
	helperFail(syscall.Exec(args[1], args[1:], os.Environ()))
}

// helperTrace shows the events of a program (development aid): trace ROOT BIN ARGS...
func helperTrace(args []string) {
	at := time.Now()
	r, err := sbx.Run(sbx.Opt{Bin: args[1], Args: args[2:], Env: os.Environ(), Dir: args[0], Root: args[0], Umask: -1, Stderr: "/dev/stderr"})
	if err != nil {
		helperFail(err)
	}
	for _, e := range r.Events {
		fmt.Printf("%s arg=%d flag=%x mode=%o ret=%d\n", e.String(), e.Arg, e.Flag, e.Mode, e.Ret)
	}
	fmt.Println("code", r.Code, r.Signal, r.Killed, time.Since(at))
}
