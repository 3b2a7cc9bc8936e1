package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// A patch replaces one piece of text, which must occur exactly once, in a
// GOROOT source file.
type patch struct {
	file, old, new string
}

var goPatches = []patch{
	// --- scheduler
	{"runtime/runtime2.go", "valgrindStackID uintptr\n", "valgrindStackID uintptr\n\n\tsimNode int32\n\tsimQuiet bool\n\tsimPrio uint32\n"},
	{"runtime/proc.go", "const haveSysmon = GOARCH != \"wasm\"", "const haveSysmon = false"},
	{"runtime/proc.go", "if pp.schedtick%61 == 0 && !sched.runq.empty() {\n\t\tlock(&sched.lock)\n\t\tgp := globrunqget()", "if !simOn && pp.schedtick%61 == 0 && !sched.runq.empty() {\n\t\tlock(&sched.lock)\n\t\tgp := globrunqget()"},
	{"runtime/proc.go", "\t// local runq\n\tif gp, inheritTime := runqget(pp); gp != nil {\n\t\treturn gp, inheritTime, false\n\t}\n", "\tif simOn {\n\t\tif gp := simPick(pp); gp != nil {\n\t\t\treturn gp, false, false\n\t\t}\n\t\tif simAdvance(pp) {\n\t\t\tgoto top\n\t\t}\n\t}\n\n\t// local runq\n\tif gp, inheritTime := runqget(pp); gp != nil {\n\t\treturn gp, inheritTime, false\n\t}\n"},
	{"runtime/proc.go", "\tnewg.parentGoid = callergp.goid\n", "\tnewg.parentGoid = callergp.goid\n\tsimNewG(newg, callergp)\n"},
	// --- timers belong to the node that made them
	{"runtime/time.go", "\tisFake bool         // timer is using fake time; immutable; can be read without lock\n", "\tisFake bool         // timer is using fake time; immutable; can be read without lock\n\tsimNode int32\n"},
	{"runtime/time.go", "\tif bubble := getg().bubble; bubble != nil {\n\t\tt.isFake = true\n\t}\n\tt.modify(when, period, f, arg, 0)\n\tt.init = true\n", "\tif bubble := getg().bubble; bubble != nil {\n\t\tt.isFake = true\n\t}\n\tt.simNode = getg().simNode\n\tt.modify(when, period, f, arg, 0)\n\tt.init = true\n"},
	{"runtime/time.go", "\tf(arg, seq, delay)\n\n\tif t.isChan {\n\t\tunlock(&t.sendLock)\n", "\tsimTimerNode = t.simNode\n\tf(arg, seq, delay)\n\tsimTimerNode = 0\n\n\tif t.isChan {\n\t\tunlock(&t.sendLock)\n"},
	// --- randomness
	{"runtime/rand.go", "\tglobalRand.state.Init(*seed)\n", "\tclear(seed[:])\n\tseed[0] = 1\n\tglobalRand.state.Init(*seed)\n"},
	{"runtime/rand.go", "func rand() uint64 {\n", "func rand() uint64 {\n\tif simOn {\n\t\treturn simRand()\n\t}\n"},
	{"runtime/rand.go", "func cheaprand() uint32 {\n", "func cheaprand() uint32 {\n\tif simOn {\n\t\treturn uint32(simCheap())\n\t}\n"},
	{"runtime/lock_spinbit.go", "cheaprandn(mutexTailWakePeriod) == 0", "!simOn && cheaprandn(mutexTailWakePeriod) == 0"},
	{"runtime/rand.go", "func cheaprandu64() uint64 {\n", "func cheaprandu64() uint64 {\n\tif simOn {\n\t\treturn simCheap()\n\t}\n"},
	{"runtime/vgetrandom_linux.go", "func vgetrandom(p []byte, flags uint32) (ret int, supported bool) {\n", "func vgetrandom(p []byte, flags uint32) (ret int, supported bool) {\n\tif simOn {\n\t\treturn -1, false\n\t}\n"},
	// --- clock and output
	{"runtime/time_fake.go", "\treturn faketime / 1e9, int32(faketime % 1e9), faketime\n", "\tw := faketime + simWallOff[getg().simNode]\n\treturn w / 1e9, int32(w % 1e9), faketime\n"},
	{"runtime/time_fake.go", "\tif !(fd == 1 || fd == 2) {\n", "\tif true {\n"},
	// --- the decision log survives a crash
	{"runtime/panic.go", "\t\tif dopanic_m(gp, pc, sp, nil) {\n", "\t\tsimCrashDump()\n\t\tif dopanic_m(gp, pc, sp, nil) {\n"},
	{"runtime/panic.go", "\t\tdocrash = dopanic_m(gp, pc, sp, bubble)\n", "\t\tsimCrashDump()\n\t\tdocrash = dopanic_m(gp, pc, sp, bubble)\n"},
	// --- allocation size
	{"runtime/malloc.go", "func mallocgc(size uintptr, typ *_type, needzero bool) unsafe.Pointer {\n", "func mallocgc(size uintptr, typ *_type, needzero bool) unsafe.Pointer {\n\tif simOn && size > 1<<20 {\n\t\tsimNoteAlloc(size)\n\t}\n"},
	// --- system calls
	{"syscall/syscall_linux.go", "//go:uintptrkeepalive\n//go:nosplit\n//go:linkname Syscall\nfunc Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n", "// SimSyscall, when set, handles the system calls of simulated nodes.\nvar SimSyscall func(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno)\n\n//go:uintptrescapes\n//go:linkname Syscall\nfunc Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n\tif SimSyscall != nil && runtime.SimNode() != 0 {\n\t\treturn SimSyscall(trap, a1, a2, a3, 0, 0, 0)\n\t}\n"},
	{"syscall/syscall_linux.go", "//go:uintptrkeepalive\n//go:nosplit\n//go:linkname Syscall6\nfunc Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n", "//go:uintptrescapes\n//go:linkname Syscall6\nfunc Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n\tif SimSyscall != nil && runtime.SimNode() != 0 {\n\t\treturn SimSyscall(trap, a1, a2, a3, a4, a5, a6)\n\t}\n"},
	// --- network
	{"net/dial.go", "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n", "func (d *Dialer) DialContext(ctx context.Context, network, address string) (Conn, error) {\n\tif SimDial != nil {\n\t\treturn SimDial(ctx, d, network, address)\n\t}\n"},
	{"net/dial.go", "func (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n", "// SimDial and SimListen, when set, replace the operating system's network.\nvar SimDial func(ctx context.Context, d *Dialer, network, address string) (Conn, error)\nvar SimListen func(ctx context.Context, network, address string) (Listener, error)\n\nfunc (lc *ListenConfig) Listen(ctx context.Context, network, address string) (Listener, error) {\n\tif SimListen != nil {\n\t\treturn SimListen(ctx, network, address)\n\t}\n"},
	{"net/dial.go", "func (lc *ListenConfig) ListenPacket(ctx context.Context, network, address string) (PacketConn, error) {\n", "func (lc *ListenConfig) ListenPacket(ctx context.Context, network, address string) (PacketConn, error) {\n\tif SimListen != nil {\n\t\treturn nil, &OpError{Op: \"listen\", Net: network, Err: &AddrError{Err: \"not simulated\", Addr: address}}\n\t}\n"},
	// --- HTTP connections are pooled per node
	{"net/http/transport.go", "\treturn connectMethodKey{\n\t\tproxy:  proxyStr,\n", "\tproxyStr += string(rune('A' + runtime.SimNode()))\n\treturn connectMethodKey{\n\t\tproxy:  proxyStr,\n"},
}

// importFixes makes sure a patched file imports what the patch uses.
var importFixes = map[string]string{
	"net/http/transport.go": "runtime",
}

type overlay struct {
	Replace map[string]string
}

func makeGoOverlay(goroot, dir string, ov *overlay) error {
	src := filepath.Join(goroot, "src")
	texts := map[string]string{}
	var order []string
	for _, p := range goPatches {
		t, ok := texts[p.file]
		if !ok {
			b, err := os.ReadFile(filepath.Join(src, p.file))
			if err != nil {
				return err
			}
			t = string(b)
			order = append(order, p.file)
		}
		if n := strings.Count(t, p.old); n != 1 {
			return fmt.Errorf("patch anchor in %s occurs %d times: %q", p.file, n, p.old)
		}
		texts[p.file] = strings.Replace(t, p.old, p.new, 1)
	}
	for f, imp := range importFixes {
		t := texts[f]
		if !strings.Contains(t, "\n\t\""+imp+"\"\n") {
			t = strings.Replace(t, "import (\n", "import (\n\t\""+imp+"\"\n", 1)
			texts[f] = t
		}
	}
	for _, f := range order {
		out := filepath.Join(dir, "goroot", f)
		if err := writeIfChanged(out, []byte(texts[f])); err != nil {
			return err
		}
		ov.Replace[filepath.Join(src, f)] = out
	}
	b, err := os.ReadFile(filepath.Join(verifDir, "dripcheck", "rt", "sim.go.txt"))
	if err != nil {
		return err
	}
	out := filepath.Join(dir, "goroot", "runtime", "zz_sim.go")
	if err := writeIfChanged(out, b); err != nil {
		return err
	}
	ov.Replace[filepath.Join(src, "runtime", "zz_sim.go")] = out
	return nil
}

func writeIfChanged(path string, b []byte) error {
	old, err := os.ReadFile(path)
	if err == nil && string(old) == string(b) {
		return nil
	}
	if err := os.MkdirAll(filepath.Dir(path), 0o755); err != nil {
		return err
	}
	tmp := fmt.Sprintf("%s.%d.tmp", path, os.Getpid())
	if err := os.WriteFile(tmp, b, 0o644); err != nil {
		return err
	}
	return os.Rename(tmp, path)
}

func (o *overlay) write(path string) error {
	b, err := json.MarshalIndent(o, "", " ")
	if err != nil {
		return err
	}
	return writeIfChanged(path, b)
}
