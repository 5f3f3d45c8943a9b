package checks

import (
	"bytes"
	"fmt"
	"go/ast"
	"go/constant"
	"go/importer"
	"go/token"
	"go/types"
	"math/rand"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"testing"

	"verifharness/mon"
	"verifharness/ref"
	"verifharness/units"

	"github.com/zeldovich/go-rpcgen/rfc1057"
	"github.com/zeldovich/go-rpcgen/rfc1813"
	"github.com/zeldovich/go-rpcgen/xdr"
)

// rfcNumbers are numbers of the protocols, written down from the RFCs (1057,
// 1813 with its mount protocol) and not from any file of the repository.
var rfcNumbers = map[string]map[string]int64{
	"rfc1057": {
		"AUTH_NONE": 0, "AUTH_UNIX": 1, "AUTH_SHORT": 2, "AUTH_DES": 3, "CALL": 0, "REPLY": 1, "MSG_ACCEPTED": 0, "MSG_DENIED": 1,
		"SUCCESS": 0, "PROG_UNAVAIL": 1, "PROG_MISMATCH": 2, "PROC_UNAVAIL": 3, "GARBAGE_ARGS": 4, "RPC_MISMATCH": 0, "AUTH_ERROR": 1,
		"AUTH_BADCRED": 1, "AUTH_REJECTEDCRED": 2, "AUTH_BADVERF": 3, "AUTH_REJECTEDVERF": 4, "AUTH_TOOWEAK": 5,
		"PMAP_PORT": 111, "IPPROTO_TCP": 6, "IPPROTO_UDP": 17, "PMAP_PROG": 100000, "PMAP_VERS": 2,
		"PMAPPROC_NULL": 0, "PMAPPROC_SET": 1, "PMAPPROC_UNSET": 2, "PMAPPROC_GETPORT": 3, "PMAPPROC_DUMP": 4, "PMAPPROC_CALLIT": 5,
	},
	"rfc1813": {
		"PROGRAM": 100003, "VERSION": 3, "NFS_PROGRAM": 100003, "NFS_V3": 3, "NFS3_FHSIZE": 64, "NFS3_COOKIEVERFSIZE": 8, "NFS3_CREATEVERFSIZE": 8, "NFS3_WRITEVERFSIZE": 8,
		"NFS3_OK": 0, "NFS3ERR_PERM": 1, "NFS3ERR_NOENT": 2, "NFS3ERR_IO": 5, "NFS3ERR_NXIO": 6, "NFS3ERR_ACCES": 13, "NFS3ERR_EXIST": 17, "NFS3ERR_XDEV": 18,
		"NFS3ERR_NODEV": 19, "NFS3ERR_NOTDIR": 20, "NFS3ERR_ISDIR": 21, "NFS3ERR_INVAL": 22, "NFS3ERR_FBIG": 27, "NFS3ERR_NOSPC": 28, "NFS3ERR_ROFS": 30,
		"NFS3ERR_MLINK": 31, "NFS3ERR_NAMETOOLONG": 63, "NFS3ERR_NOTEMPTY": 66, "NFS3ERR_DQUOT": 69, "NFS3ERR_STALE": 70, "NFS3ERR_REMOTE": 71,
		"NFS3ERR_BADHANDLE": 10001, "NFS3ERR_NOT_SYNC": 10002, "NFS3ERR_BAD_COOKIE": 10003, "NFS3ERR_NOTSUPP": 10004, "NFS3ERR_TOOSMALL": 10005,
		"NFS3ERR_SERVERFAULT": 10006, "NFS3ERR_BADTYPE": 10007, "NFS3ERR_JUKEBOX": 10008,
		"NF3REG": 1, "NF3DIR": 2, "NF3BLK": 3, "NF3CHR": 4, "NF3LNK": 5, "NF3SOCK": 6, "NF3FIFO": 7, "DONT_CHANGE": 0, "SET_TO_SERVER_TIME": 1, "SET_TO_CLIENT_TIME": 2,
		"ACCESS3_READ": 1, "ACCESS3_LOOKUP": 2, "ACCESS3_MODIFY": 4, "ACCESS3_EXTEND": 8, "ACCESS3_DELETE": 16, "ACCESS3_EXECUTE": 32,
		"UNSTABLE": 0, "DATA_SYNC": 1, "FILE_SYNC": 2, "UNCHECKED": 0, "GUARDED": 1, "EXCLUSIVE": 2,
		"FSF3_LINK": 1, "FSF3_SYMLINK": 2, "FSF3_HOMOGENEOUS": 8, "FSF3_CANSETTIME": 16,
		"NFSPROC3_NULL": 0, "NFSPROC3_GETATTR": 1, "NFSPROC3_SETATTR": 2, "NFSPROC3_LOOKUP": 3, "NFSPROC3_ACCESS": 4, "NFSPROC3_READLINK": 5, "NFSPROC3_READ": 6,
		"NFSPROC3_WRITE": 7, "NFSPROC3_CREATE": 8, "NFSPROC3_MKDIR": 9, "NFSPROC3_SYMLINK": 10, "NFSPROC3_MKNOD": 11, "NFSPROC3_REMOVE": 12, "NFSPROC3_RMDIR": 13,
		"NFSPROC3_RENAME": 14, "NFSPROC3_LINK": 15, "NFSPROC3_READDIR": 16, "NFSPROC3_READDIRPLUS": 17, "NFSPROC3_FSSTAT": 18, "NFSPROC3_FSINFO": 19,
		"NFSPROC3_PATHCONF": 20, "NFSPROC3_COMMIT": 21,
		"MNTPATHLEN3": 1024, "MNTNAMLEN3": 255, "FHSIZE3": 64, "MNT3_OK": 0, "MNT3ERR_PERM": 1, "MNT3ERR_NOENT": 2, "MNT3ERR_IO": 5, "MNT3ERR_ACCES": 13,
		"MNT3ERR_NOTDIR": 20, "MNT3ERR_INVAL": 22, "MNT3ERR_NAMETOOLONG": 63, "MNT3ERR_NOTSUPP": 10004, "MNT3ERR_SERVERFAULT": 10006,
		"MOUNT_PROGRAM": 100005, "MOUNT_V3": 3, "MOUNTPROC3_NULL": 0, "MOUNTPROC3_MNT": 1, "MOUNTPROC3_DUMP": 2, "MOUNTPROC3_UMNT": 3, "MOUNTPROC3_UMNTALL": 4, "MOUNTPROC3_EXPORT": 5,
	},
}

// rfcLayouts are encodings put together by hand from the RFCs.
var rfcLayouts = []struct {
	pkg, typ string
	mk       func() xdr.Xdrable
	hex      string
}{
	{"rfc1057", "rpc_msg (call)", func() xdr.Xdrable {
		m := &rfc1057.Rpc_msg{Xid: 0x01020304}
		m.Body.Mtype = rfc1057.CALL
		m.Body.Cbody = rfc1057.Call_body{Rpcvers: 2, Prog: 100003, Vers: 3, Proc: 1, Cred: rfc1057.Opaque_auth{Flavor: rfc1057.AUTH_UNIX, Body: []byte{1, 2, 3, 4, 5}}}
		return m
	}, "01020304 00000000 00000002 000186a3 00000003 00000001 00000001 00000005 01020304 05000000 00000000 00000000"},
	{"rfc1057", "rpc_msg (rejected)", func() xdr.Xdrable {
		m := &rfc1057.Rpc_msg{Xid: 7}
		m.Body.Mtype = rfc1057.REPLY
		m.Body.Rbody.Stat = rfc1057.MSG_DENIED
		m.Body.Rbody.Rreply.Stat = rfc1057.RPC_MISMATCH
		m.Body.Rbody.Rreply.Mismatch_info.Low, m.Body.Rbody.Rreply.Mismatch_info.High = 2, 9
		return m
	}, "00000007 00000001 00000001 00000000 00000002 00000009"},
	{"rfc1057", "rpc_msg (version mismatch)", func() xdr.Xdrable {
		m := &rfc1057.Rpc_msg{Xid: 7}
		m.Body.Mtype = rfc1057.REPLY
		m.Body.Rbody.Areply.Reply_data.Stat = rfc1057.PROG_MISMATCH
		m.Body.Rbody.Areply.Reply_data.Mismatch_info.Low, m.Body.Rbody.Areply.Reply_data.Mismatch_info.High = 2, 4
		return m
	}, "00000007 00000001 00000000 00000000 00000000 00000002 00000002 00000004"},
	{"rfc1057", "auth_unix", func() xdr.Xdrable {
		return &rfc1057.Auth_unix{Stamp: 9, Machinename: "host", Uid: 1, Gid: 2, Gids: []uint32{3, 4}}
	}, "00000009 00000004 686f7374 00000001 00000002 00000002 00000003 00000004"},
	{"rfc1057", "pmaplist", func() xdr.Xdrable {
		l := rfc1057.Pmaplist{P: &rfc1057.Pmaplistelem{Map: rfc1057.Mapping{Prog: 1, Vers: 2, Prot: 6, Port: 111}}}
		return &l
	}, "00000001 00000001 00000002 00000006 0000006f 00000000"},
	{"rfc1813", "GETATTR3res", func() xdr.Xdrable {
		g := &rfc1813.GETATTR3res{Status: rfc1813.NFS3_OK}
		a := &g.Resok.Obj_attributes
		a.Ftype, a.Mode, a.Nlink, a.Uid, a.Gid, a.Size, a.Used = rfc1813.NF3DIR, 0755, 2, 10, 11, 0x1000000020, 0x30
		a.Rdev.Specdata1, a.Rdev.Specdata2, a.Fsid, a.Fileid = 1, 2, 3, 4
		a.Atime.Seconds, a.Atime.Nseconds, a.Mtime.Seconds, a.Mtime.Nseconds, a.Ctime.Seconds, a.Ctime.Nseconds = 5, 6, 7, 8, 9, 10
		return g
	}, "00000000 00000002 000001ed 00000002 0000000a 0000000b 00000010 00000020 00000000 00000030 00000001 00000002 00000000 00000003 00000000 00000004 00000005 00000006 00000007 00000008 00000009 0000000a"},
	{"rfc1813", "LOOKUP3args", func() xdr.Xdrable {
		l := &rfc1813.LOOKUP3args{}
		l.What.Dir.Data, l.What.Name = []byte{0xaa, 0xbb}, "name5"
		return l
	}, "00000002 aabb0000 00000005 6e616d65 35000000"},
	{"rfc1813", "WRITE3args", func() xdr.Xdrable {
		w := &rfc1813.WRITE3args{Offset: 0x100000001, Count: 3, Stable: rfc1813.FILE_SYNC, Data: []byte{1, 2, 3}}
		w.File.Data = []byte{1}
		return w
	}, "00000001 01000000 00000001 00000001 00000003 00000002 00000003 01020300"},
}

// convertInto copies a value into a variable of a type of the same structure.
func convertInto(d, s reflect.Value) error {
	if d.Kind() != s.Kind() {
		return fmt.Errorf("%v and %v", d.Type(), s.Type())
	}
	switch s.Kind() {
	case reflect.Pointer:
		if s.IsNil() {
			d.SetZero()
			return nil
		}
		n := reflect.New(d.Type().Elem())
		d.Set(n)
		return convertInto(n.Elem(), s.Elem())
	case reflect.Slice:
		if s.IsNil() {
			d.SetZero()
			return nil
		}
		d.Set(reflect.MakeSlice(d.Type(), s.Len(), s.Len()))
		fallthrough
	case reflect.Array:
		if d.Len() != s.Len() {
			return fmt.Errorf("%v and %v", d.Type(), s.Type())
		}
		for i := 0; i < s.Len(); i++ {
			if err := convertInto(d.Index(i), s.Index(i)); err != nil {
				return err
			}
		}
	case reflect.Struct:
		if d.NumField() != s.NumField() {
			return fmt.Errorf("%v has %d fields, %v %d", d.Type(), d.NumField(), s.Type(), s.NumField())
		}
		for i := 0; i < s.NumField(); i++ {
			f := s.Type().Field(i)
			df := d.FieldByName(f.Name)
			if !df.IsValid() {
				return fmt.Errorf("%v has no field %s", d.Type(), f.Name)
			}
			if err := convertInto(df, s.Field(i)); err != nil {
				return err
			}
		}
	default:
		d.Set(s.Convert(d.Type()))
	}
	return nil
}

// genDiffer compares the shipped packages with their regenerated twins.
func genDiffer(m *mon.M) {
	by := map[string]genPkg{}
	for _, g := range genPkgs {
		by[g.ID] = g
	}
	for _, pkg := range []string{"rfc1057", "rfc1813"} {
		a, b := by[pkg], by["re"+pkg]
		if a.ID == "" || b.ID == "" {
			continue
		}
		r := rng(m, pkg)
		var rec recorder
		for i := range a.Progs {
			x, y := fmt.Sprint(regNumbers(a.Progs[i].Regs(&rec))), fmt.Sprint(regNumbers(b.Progs[i].Regs(&rec)))
			m.Eval([]byte(pkg+x), true)
			if x != y {
				m.Violation("registration", "%s: shipped registrations %s, regenerated %s", pkg, x, y)
			}
			m.Count("registrations_compared", int64(strings.Count(x, "[")-1))
		}
		for n, v := range a.Consts {
			if w, ok := b.Consts[n]; !ok || v != w {
				m.Violation("constant", "%s: %s is %d in the shipped package, %d in the regenerated one", pkg, n, v, w)
			}
		}
		us := a.units()
		for i, ub := range b.units() {
			ua := us[i]
			if m.Violations() > 6 {
				return
			}
			m.Case(ua.Name)
			differ(m, ua, ub, r)
		}
	}
}

func regNumbers(rs []xdrReg) (l [][3]uint32) {
	for _, x := range rs {
		l = append(l, [3]uint32{x.Prog, x.Vers, x.Proc})
	}
	sort.Slice(l, func(i, j int) bool { return fmt.Sprint(l[i]) < fmt.Sprint(l[j]) })
	return
}

func differ(m *mon.M, ua, ub units.Unit, r *rand.Rand) {
	var corpus [][]byte
	enc := func(in units.Inst, what string) bool {
		tw := ub.Make()
		if err := convertInto(tw.RV, in.RV); err != nil {
			m.Violation("structure", "%s: shipped and regenerated types differ: %v", ua.Name, err)
			return false
		}
		keep := deepCopy(tw.RV)
		var x, y []byte
		var ex, ey error
		safely(m, "panic", ua.Name+" encoding", func() { x, ex = encode(in.X) })
		safely(m, "panic", ub.Name+" encoding", func() { y, ey = encode(tw.X) })
		if sameErr(ex) != sameErr(ey) || ex == nil && !bytes.Equal(x, y) {
			m.Violation("encode", "%s: %s: the shipped package encodes %s to %x (%v), the regenerated one to %x (%v)", ua.Name, what, dump(keep), clip(x), ex, clip(y), ey)
			return false
		}
		m.Count("values_compared", 1)
		m.Eval(append([]byte(ua.Name+"e"), x...), true)
		if ex == nil && (len(corpus) < 30 || r.Intn(4) == 0) {
			corpus = append(corpus, x)
		}
		return true
	}
	dec := func(b []byte) bool {
		p, q := ua.Make(), ub.Make()
		rp, rq := xdr.MakeReader(append([]byte{}, b...)), xdr.MakeReader(append([]byte{}, b...))
		safely(m, "panic", fmt.Sprintf("%s: decoding %x", ua.Name, b), func() { p.X.Xdr(rp) })
		safely(m, "panic", fmt.Sprintf("%s: decoding %x", ub.Name, b), func() { q.X.Xdr(rq) })
		m.Count("byte_strings_compared", 1)
		m.Eval(append([]byte(ua.Name+"d"), b...), true)
		if (rp.Error() == nil) != (rq.Error() == nil) {
			m.Violation("decode", "%s: decoding %x: shipped %v, regenerated %v", ua.Name, clip(b), rp.Error(), rq.Error())
			return false
		}
		if rp.Error() != nil {
			return true
		}
		c := ua.Make()
		if err := convertInto(c.RV, q.RV); err != nil {
			m.Violation("structure", "%s: shipped and regenerated types differ: %v", ua.Name, err)
			return false
		}
		if d := ua.S.Diff(ua.T, p.RV, c.RV); d != "" {
			m.Violation("decode", "%s: shipped and regenerated code decode %x differently at %s", ua.Name, clip(b), d)
			return false
		}
		return true
	}
	for i := 0; i < m.N(80, 1500); i++ {
		if !enc(value(ua, r, budget(r), true, nil), "random") {
			return
		}
	}
	ok := true
	armVariants(ua, r, func(in units.Inst, what string) { ok = ok && enc(in, what) })
	for _, s := range ua.S.Sites(ua.T, 2, ref.Bounded) {
		if s.T.N > 5000 {
			continue
		}
		for _, n := range []int{0, 1, int(s.T.N) - 1, int(s.T.N), int(s.T.N) + 1, int(s.T.N) + 2} {
			if n < 0 || !ok {
				continue
			}
			in := ua.Make()
			g := &ref.Gen{S: ua.S, R: r, Budget: 200, Path: s.Path}
			g.At = func(t *ref.Type, rv reflect.Value) bool { g.FillLen(t, rv, n); return true }
			g.Fill(ua.T, in.RV)
			ok = enc(in, fmt.Sprintf("length %d at %s", n, s.Name))
			ok = ok && dec(ua.S.EncodeNoLimits(ua.T, in.RV))
		}
	}
	for i := 0; ok && len(corpus) > 0 && i < m.N(150, 3000); i++ {
		b := corpus[r.Intn(len(corpus))]
		switch r.Intn(4) {
		case 0:
			b = b[:r.Intn(len(b)+1)]
		case 1:
		default:
			b = mutate(b, r)
		}
		ok = dec(b)
	}
	if len(corpus) > 0 {
		m.Sample(map[string]string{"type": ua.Name, "encoding": ref.Hex(corpus[0])})
	}
}

// repoImporter type-checks the repository's packages from their files.
type repoImporter struct {
	std  types.Importer
	repo string
	seen map[string]*types.Package
}

func (i *repoImporter) Import(path string) (*types.Package, error) {
	const mod = "github.com/zeldovich/go-rpcgen/"
	if !strings.HasPrefix(path, mod) {
		return i.std.Import(path)
	}
	if p := i.seen[path]; p != nil {
		return p, nil
	}
	p, err := typeCheck(path, goFiles(filepath.Join(i.repo, strings.TrimPrefix(path, mod))), i)
	if err == nil {
		i.seen[path] = p
	}
	return p, err
}

func goFiles(dir string) (l []string) {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.go"))
	for _, f := range fs {
		if !strings.HasSuffix(f, "_test.go") {
			l = append(l, f)
		}
	}
	return
}

// internal says whether a name, though exported, is one of the generator's
// means and no user's business: how a handler is adapted to the server.
func internal(n string) bool { return strings.HasSuffix(n, "_handler_wrapper") }

// surface describes the exported declarations of a package.
func surface(p *types.Package) map[string]string {
	q := func(o *types.Package) string {
		if o == p {
			return ""
		}
		return o.Name()
	}
	out := map[string]string{}
	for _, n := range p.Scope().Names() {
		o := p.Scope().Lookup(n)
		if !o.Exported() || internal(n) {
			continue
		}
		switch o := o.(type) {
		case *types.Const:
			v := o.Val()
			if i := constant.ToInt(v); i.Kind() == constant.Int {
				v = i
			}
			out[n] = fmt.Sprintf("const %s = %s", types.TypeString(o.Type(), q), v)
		case *types.TypeName:
			out[n] = "type " + types.TypeString(o.Type().Underlying(), q)
			if nm, ok := o.Type().(*types.Named); ok {
				for i := 0; i < nm.NumMethods(); i++ {
					out[n+"."+nm.Method(i).Name()] = types.TypeString(nm.Method(i).Type(), q)
				}
			}
		default:
			out[n] = types.TypeString(o.Type(), q)
		}
	}
	return out
}

func TestC23(t *testing.T) {
	run(t, "C23", "the shipped packages against (a) numbers and encodings written down from the RFCs, (b) pinned copies of their specifications (every constant, every type's structure), (c) packages regenerated from prot.x with the Makefile's options: exported declarations compared, and both run on the same values (every union arm, lengths around every limit) and mutated byte strings; non-trivial: every comparison, distinct by item or by type and bytes", func(m *mon.M) {
		work, repo := os.Getenv("VERIF_WORK"), os.Getenv("VERIF_REPO")
		imp := &repoImporter{importer.ForCompiler(token.NewFileSet(), "source", nil), repo, map[string]*types.Package{}}
		var specs []*genSpec
		for _, pkg := range []string{"rfc1057", "rfc1813"} {
			pin := units.Spec(pkg)
			ship, err := imp.Import("github.com/zeldovich/go-rpcgen/" + pkg)
			if err != nil {
				fmt.Println("CHECK ERROR: type-checking", pkg, err)
				os.Exit(3)
			}
			cs := constants(ship)
			value := func(n string) (int64, bool) {
				c := cs[n]
				if c == nil {
					return 0, false
				}
				return constant.Int64Val(constant.ToInt(c.Val()))
			}
			check := func(from, n string, want int64) {
				m.Eval([]byte(pkg+from+n), true)
				m.Count("constants_checked", 1)
				if v, ok := value(n); !ok || v != want {
					m.Violation("constant", "%s.%s is %d (declared: %v), but %d in the %s", pkg, n, v, ok, want, from)
				}
			}
			for n, v := range rfcNumbers[pkg] {
				check("RFC", n, v)
			}
			for n, v := range pin.Consts {
				if n != "TRUE" && n != "FALSE" {
					if _, item := pin.EnumOf[n]; item {
						n = ref.GoName(n)
					}
					check("pinned specification", n, v)
				}
			}
			for _, p := range pin.Progs {
				check("pinned specification", ref.GoName(p.Name), int64(p.Num))
				for _, v := range p.Vers {
					check("pinned specification", ref.GoName(v.Name), int64(v.Num))
					for _, c := range v.Procs {
						check("pinned specification", ref.GoName(c.Name), int64(c.Num))
					}
				}
			}
			for _, u := range units.Shipped() {
				if !strings.HasPrefix(u.Name, pkg+".") {
					continue
				}
				m.Eval([]byte(u.Name+"shape"), true)
				m.Count("types_checked", 1)
				if err := u.S.Shape(u.T, u.Make().RV.Type(), u.Name, map[string]bool{}); err != nil {
					m.Violation("structure", "%v", err)
				}
			}
			// regenerate
			text, err := os.ReadFile(filepath.Join(repo, pkg, "prot.x"))
			if err != nil {
				fmt.Println("CHECK ERROR:", err)
				os.Exit(3)
			}
			g := &genSpec{id: "re" + pkg, text: string(text), o: genOpts{Unsigned: true, ConstType: "uint32", Split: true}, s: pin}
			if c := g.generate(work); c != 0 {
				m.Violation("regenerate", "the generator refuses %s/prot.x: exit status %d: %.500s", pkg, c, g.out)
				continue
			}
			re, err := typeCheck("re", []string{filepath.Join(g.dir, "xdr.go"), filepath.Join(g.dir, "types.go")}, imp)
			if err != nil {
				m.Violation("regenerate", "what the generator makes of %s/prot.x does not compile: %v", pkg, err)
				continue
			}
			a, b := surface(ship), surface(re)
			for n, d := range b {
				m.Eval([]byte(pkg+"surface"+n), true)
				m.Count("declarations_compared", 1)
				if a[n] != d {
					m.Violation("declaration", "%s: %s is %q in the shipped package, %q when regenerated", pkg, n, a[n], d)
				}
			}
			// what generated files declare, regeneration declares too
			_, af, err := declared([]string{filepath.Join(repo, pkg, "xdr.go"), filepath.Join(repo, pkg, "types.go")})
			if err == nil {
				for _, f := range af {
					for _, d := range f.Decls {
						gd, ok := d.(*ast.GenDecl)
						if !ok {
							continue
						}
						for _, sp := range gd.Specs {
							var names []*ast.Ident
							switch sp := sp.(type) {
							case *ast.TypeSpec:
								names = []*ast.Ident{sp.Name}
							case *ast.ValueSpec:
								names = sp.Names
							}
							for _, n := range names {
								if _, ok := b[n.Name]; !ok && n.IsExported() && !internal(n.Name) {
									m.Violation("declaration", "%s: %s is in the shipped package, but not when regenerated", pkg, n.Name)
								}
							}
						}
					}
				}
			}
			specs = append(specs, g, &genSpec{id: pkg, text: units.SpecText(pkg), s: pin, pkg: "github.com/zeldovich/go-rpcgen/" + pkg})
		}
		for _, l := range rfcLayouts {
			m.Eval([]byte(l.typ), true)
			m.Count("layouts_checked", 1)
			b, err := encode(l.mk())
			want := strings.ReplaceAll(l.hex, " ", "")
			if got := fmt.Sprintf("%x", b); err != nil || got != want {
				m.Violation("layout", "%s %s encodes to %s (%v), not %s", l.pkg, l.typ, got, err, want)
			}
			back := reflect.New(reflect.TypeOf(l.mk()).Elem())
			if err := xdr.DecodeBuf(b, back.Interface().(xdr.Xdrable)); err != nil {
				m.Violation("layout", "%s %s does not decode: %v", l.pkg, l.typ, err)
			} else if b2, err := encode(back.Interface().(xdr.Xdrable)); err != nil || !bytes.Equal(b, b2) {
				m.Violation("layout", "%s %s decodes to something else", l.pkg, l.typ)
			}
		}
		if len(specs) == 4 {
			for _, g := range specs {
				if strings.HasPrefix(g.id, "re") {
					g.text = units.SpecText(strings.TrimPrefix(g.id, "re")) // what the twin is measured by
				}
			}
			bin, bad, _ := driver(work, "twins", specs, true, true)
			for id, e := range bad {
				m.Violation("regenerate", "the package regenerated for %s does not have what its pinned specification declares: %.800s", id, e)
			}
			if len(bad) == 0 {
				runChild(m, bin, "TestHelperGen", "diff", work, "twins", "")
			}
		}
	})
}
