"""Builds the simulated generator: /repo's command line tool on a standard
library whose file, process, clock and randomness calls go through the
simulator, and the stand-in for the go command."""
import json, os, shutil
import ws
from overlay import edit

GOROOT24 = '/opt/veriftools/go1.24.13'


def overlay24(out):
    os.makedirs(out, exist_ok=True)
    r = GOROOT24
    hook = '\tif simFD >= 0 {\n\t\tif x1, x2, e, done := simSys(trap, a1, a2, a3, %s); done {\n\t\t\treturn x1, x2, e\n\t\t}\n\t}\n'
    m = dict([
        edit(r, 'syscall/syscall_linux.go', [
            ('func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n', 'func Syscall(trap, a1, a2, a3 uintptr) (r1, r2 uintptr, err Errno) {\n' + hook % '0, 0, 0', 1),
            ('func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n', 'func Syscall6(trap, a1, a2, a3, a4, a5, a6 uintptr) (r1, r2 uintptr, err Errno) {\n' + hook % 'a4, a5, a6', 1),
            ('\treturn Getdents(fd, buf)\n', '\tn, err = Getdents(fd, buf)\n\tif n > 0 {\n\t\tsimShuffle(buf[:n])\n\t}\n\treturn n, err\n', 1),
        ], out),
        edit(r, 'syscall/zsyscall_linux_amd64.go', [
            ('\tr0, _ := rawSyscallNoError(SYS_GETPID, 0, 0, 0)\n\tpid = int(r0)\n\treturn\n',
             '\tif simPid > 0 {\n\t\treturn simPid\n\t}\n\tr0, _ := rawSyscallNoError(SYS_GETPID, 0, 0, 0)\n\tpid = int(r0)\n\treturn\n', 1)], out),
        edit(r, 'syscall/exec_unix.go', [
            ('func forkExec(argv0 string, argv []string, attr *ProcAttr) (pid int, err error) {\n',
             'func forkExec(argv0 string, argv []string, attr *ProcAttr) (pid int, err error) {\n\tif attr == nil {\n\t\tattr = &zeroProcAttr\n\t}\n'
             '\tif argv0, attr, err = simExec(argv0, argv, attr); err != nil {\n\t\treturn 0, err\n\t}\n', 1)], out),
        edit(r, 'time/time.go', [('\tsec, nsec, mono := runtimeNow()\n\tif mono == 0 {', '\tsec, nsec, mono := runtimeNow()\n\tsec += syscall.SimClock\n\tif mono == 0 {', 1),
                                 ('import (\n', 'import (\n\t"syscall"\n', 1)], out),
        edit(r, 'runtime/rand.go', [
            ('\tglobalRand.state.Init(*seed)\n', '\tif s := simEnvSeed(); s != 0 {\n\t\tsimSeed = s\n\t\tfor i := range seed {\n\t\t\ts ^= s << 13\n\t\t\ts ^= s >> 7\n\t\t\ts ^= s << 17\n\t\t\tseed[i] = byte(s >> 24)\n\t\t}\n\t}\n\tglobalRand.state.Init(*seed)\n', 1),
            ('func maps_rand() uint64 {\n', 'func maps_rand() uint64 {\n\tif simSeed != 0 {\n\t\treturn simSeed\n\t}\n', 1),
            ('// mrandinit initializes', '''var simSeed uint64

// simEnvSeed finds SIM_SEED before the environment is set up.
func simEnvSeed() uint64 {
	for i := argc + 1; ; i++ {
		p := argv_index(argv, i)
		if p == nil {
			return 0
		}
		s := gostringnocopy(p)
		if len(s) > 9 && s[:9] == "SIM_SEED=" {
			n := uint64(0)
			for _, c := range []byte(s[9:]) {
				n = n*10 + uint64(c-'0')
			}
			n = n*0x9E3779B97F4A7C15 + 0x632BE59BD9B4E019
			n ^= n >> 31
			return n | 1
		}
	}
}

// mrandinit initializes''', 1)], out),
        edit(r, 'internal/runtime/maps/table.go', [('\tit.entryOffset = rand()\n\tit.dirOffset = rand()\n', '\tit.entryOffset = rand() * (2*m.used + 1)\n\tit.dirOffset = rand() >> 9\n', 1)], out),
        edit(r, 'runtime/proc.go', [('const randomizeScheduler = raceenabled', 'const randomizeScheduler = true', 1)], out),
    ])
    hookf = os.path.join(out, 'zz_sim_linux.go')
    shutil.copy(os.path.join(ws.SIM, 'gen', 'hook.go.txt'), hookf)
    m[os.path.join(r, 'src/syscall/zz_sim_linux.go')] = hookf
    f = os.path.join(out, 'overlay24.json')
    json.dump({'Replace': m}, open(f, 'w'))
    return f


def build(root):
    """Returns (simulated generator, shim)."""
    os.makedirs(root, exist_ok=True)
    ov = overlay24(os.path.join(root, 'ov'))
    cli = os.path.join(root, 'sqlgen')
    ws.run([ws.GO24, 'build', '-overlay', ov, '-o', cli, '.'], cwd=ws.REPO + '/cmd/sqlgen',
           env=ws.env(GOWORK=ws.REPO + '/go.work', GOFLAGS='-buildvcs=false', CGO_ENABLED='0'))
    sd = os.path.join(root, 'shim')
    os.makedirs(sd, exist_ok=True)
    shutil.copy(os.path.join(ws.SIM, 'gen', 'shim.go.txt'), sd + '/main.go')
    open(sd + '/go.mod', 'w').write('module shim\n\ngo 1.24.0\n')
    shim = os.path.join(root, 'go')
    ws.run([ws.GO24, 'build', '-o', shim, '.'], cwd=sd, env=ws.env(CGO_ENABLED='0'))
    return cli, shim
