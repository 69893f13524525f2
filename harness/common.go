package PKG

// Shared by the bounded harnesses: every case runs guarded, failures are lines on stdout.

import (
	"encoding/json"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"strings"
	"time"

	vzgroup "github.com/takakv/msc-poc/group"
)

var (
	vzCases, vzFails int
	vzRnd            = vzSeed()
	vzSeen           = map[string]bool{}
)

func vzSeed() *rand.Rand {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		n = 1
	}
	return rand.New(rand.NewSource(n))
}

func vzThorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func vzN(quick, thorough int) int {
	if vzThorough() {
		return thorough
	}
	return quick
}

func vzFail(format string, a ...any) {
	s := strings.ReplaceAll(fmt.Sprintf(format, a...), "\n", " ")
	if len(s) > 900 {
		s = s[:900]
	}
	vzFails++
	if vzFails <= 40 {
		fmt.Printf("\nVERIF-FAIL %s\n", s)
	}
}

// vzCase runs one case: a panic or an endless run is a failure.
func vzCase(name string, f func()) {
	vzCases++
	done := make(chan bool)
	go func() {
		defer close(done)
		defer func() {
			if r := recover(); r != nil {
				st := strings.Split(string(debug.Stack()), "\n")
				if len(st) > 14 {
					st = st[:14]
				}
				vzFail("%s: panic: %v at %s", name, r, strings.Join(st, " "))
			}
		}()
		f()
	}()
	select {
	case <-done:
	case <-time.After(75 * time.Second):
		vzFail("%s: does not finish", name)
		vzDone()
		os.Exit(3)
	}
}

func vzCheck(ok bool, format string, a ...any) bool {
	if !ok {
		vzFail(format, a...)
	}
	return ok
}

func vzDone() {
	fmt.Printf("\nVERIF-COUNT %d\n", vzCases)
}

func vzBig(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 0)
	if !ok {
		panic(s)
	}
	return n
}

func vzBelow(m *big.Int) *big.Int { return new(big.Int).Rand(vzRnd, m) }

func vzInt(n int64) *big.Int { return big.NewInt(n) }

const vzSafePrime = `FFFFFFFF FFFFFFFF C90FDAA2 2168C234 C4C6628B 80DC1CD1
		29024E08 8A67CC74 020BBEA6 3B139B22 514A0879 8E3404DD
		EF9519B3 CD3A431B 302B0A6D F25F1437 4FE1356D 6D51C245
		E485B576 625E7EC6 F44C42E9 A637ED6B 0BFF5CB6 F406B7ED
		EE386BFB 5A899FA5 AE9F2411 7C4B1FE6 49286651 ECE45B3D
		C2007CB8 A163BF05 98DA4836 1C55D39A 69163FA8 FD24CF5F
		83655D23 DCA3AD96 1C62F356 208552BB 9ED52907 7096966D
		670C354E 4ABC9804 F1746C08 CA18217C 32905E46 2E36CE3B
		E39E772C 180E8603 9B2783A2 EC07A28F B5C55DF0 6F4C52C9
		DE2BCBF6 95581718 3995497C EA956AE5 15D22618 98FA0510
		15728E5A 8AAAC42D AD33170D 04507A33 A85521AB DF1CBA64
		ECFB8504 58DBEF0A 8AEA7157 5D060C7D B3970F85 A6E1E4C7
		ABF5AE8C DB0933D7 1E8C94E0 4A25619D CEE3D226 1AD2EE6B
		F12FFA06 D98A0864 D8760273 3EC86A64 521F2B18 177B200C
		BBE11757 7A615D6C 770988C0 BAD946E2 08E24FA0 74E5AB31
		43DB5BFC E0FD108E 4B82D120 A93AD2CA FFFFFFFF FFFFFFFF`

func vzModP() vzgroup.Group {
	return vzgroup.NewModPGroup("RFC3526ModPGroup3072", vzSafePrime, "2")
}

func vzCurves() []vzgroup.Group {
	return []vzgroup.Group{vzgroup.P256(), vzgroup.SecP256k1(), vzgroup.Ristretto255(), vzgroup.P384()}
}

// vzSum is s0*P0 + s1*P1 + ...
func vzSum(g vzgroup.Group, a ...any) vzgroup.Element {
	r := g.Identity()
	for i := 0; i < len(a); i += 2 {
		s := new(big.Int).Mod(a[i].(*big.Int), g.N())
		r = g.Element().Add(r, g.Element().Scale(a[i+1].(vzgroup.Element), s))
	}
	return r
}

func vzMul(a ...*big.Int) *big.Int {
	r := big.NewInt(1)
	for _, x := range a {
		r.Mul(r, x)
	}
	return r
}

func vzAdd(a ...*big.Int) *big.Int {
	r := new(big.Int)
	for _, x := range a {
		r.Add(r, x)
	}
	return r
}

func vzNeg(a *big.Int) *big.Int { return new(big.Int).Neg(a) }

func vzCopy(e vzgroup.Element, g vzgroup.Group) vzgroup.Element {
	return g.Element().Add(e, g.Identity())
}

func vzJSON(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		return "error " + err.Error()
	}
	return string(b)
}

// vzSnap describes a value in full: elements by their textual form, integers in decimal.
func vzSnap(v ...any) string {
	var sb strings.Builder
	for _, x := range v {
		switch y := x.(type) {
		case *big.Int:
			if y == nil {
				sb.WriteString("nil;")
			} else {
				sb.WriteString(y.String() + ";")
			}
		case []*big.Int:
			for _, z := range y {
				sb.WriteString(vzSnap(z))
			}
			fmt.Fprintf(&sb, "#%d;", len(y))
		case vzgroup.Group:
			sb.WriteString(y.Name() + y.N().String() + "," + y.P().String() + ";")
		case vzgroup.Element:
			fmt.Fprintf(&sb, "%x;", y.String())
		case []vzgroup.Element:
			for _, z := range y {
				sb.WriteString(vzSnap(z))
			}
			fmt.Fprintf(&sb, "#%d;", len(y))
		case nil:
			sb.WriteString("nil;")
		default:
			fmt.Fprintf(&sb, "%v;", y)
		}
	}
	return sb.String()
}

func vzClip(s string) string {
	if len(s) > 120 {
		return s[:120] + "..."
	}
	return s
}

func vzUnmarshal(s string, v any) error { return json.Unmarshal([]byte(s), v) }

// vzAlterDoc calls f with altered copies of a JSON document: every part removed, null,
// of another type, a vector shortened; needed: decoding must refuse it.
func vzAlterDoc(doc string, g vzgroup.Group, f func(name, alt string, needed bool)) {
	var root any
	d := json.NewDecoder(strings.NewReader(doc))
	d.UseNumber()
	if err := d.Decode(&root); err != nil {
		panic(err)
	}
	emit := func(name string, needed bool) {
		b, _ := json.Marshal(root)
		f(name, string(b), needed)
	}
	var walk func(path string, v any, set func(any), del func())
	walk = func(path string, v any, set func(any), del func()) {
		// parameters that decoding takes from the verifier need not be there
		opt := strings.Contains(path, "Params")
		if del != nil {
			del()
			emit(path+" missing", !opt)
			set(v)
			for n, alt := range map[string]any{"null": nil, "a word": "x", "true": true, "a fraction": 0.5, "an empty object": map[string]any{}, "an empty list": []any{}, "minus one": -1, "zero": 0} {
				set(alt)
				num := n == "minus one" || n == "zero"
				_, isNum := v.(json.Number)
				_, isList := v.([]any)
				emit(path+" "+n, !opt && !(num && isNum) && !(isList && (n == "an empty list" || n == "null")))
				set(v)
			}
		}
		switch x := v.(type) {
		case map[string]any:
			for k, c := range x {
				walk(path+"."+k, c, func(n any) { x[k] = n }, func() { delete(x, k) })
			}
		case []any:
			for k, c := range x {
				if k > 1 && k < len(x)-1 {
					continue
				}
				walk(fmt.Sprintf("%s[%d]", path, k), c, func(n any) { x[k] = n }, nil)
				x[k] = nil
				emit(fmt.Sprintf("%s[%d] null", path, k), !opt)
				x[k] = map[string]any{"X": json.Number("1"), "Y": json.Number("1")}
				emit(fmt.Sprintf("%s[%d] off the curve", path, k), !opt)
				x[k] = c
			}
			if set != nil && len(x) > 0 {
				set(x[:len(x)-1])
				emit(path+" shorter", !opt)
				set(append(append([]any{}, x...), x[0]))
				emit(path+" longer", !opt)
				set(x)
			}
		}
	}
	walk("", root, func(any) {}, nil)
	for n, s := range map[string]string{"empty": "", "null": "null", "a list": "[]", "an empty object": "{}", "cut off": doc[:len(doc)/2], "a number": "3"} {
		f("document "+n, s, true)
	}
	// two parts exchanged
	if m, ok := root.(map[string]any); ok {
		ks := []string{}
		for k := range m {
			ks = append(ks, k)
		}
		for i := 0; i < len(ks); i++ {
			for j := 0; j < i; j++ {
				a, b := ks[i], ks[j]
				m[a], m[b] = m[b], m[a]
				emit(a+" and "+b+" exchanged", false)
				m[a], m[b] = m[b], m[a]
			}
		}
	}
}

// vzSameDoc: what y holds, x holds too (x may hold more).
func vzSameDoc(what string, x, y any) {
	switch b := y.(type) {
	case map[string]any:
		a, ok := x.(map[string]any)
		if !ok {
			vzFail("%s: accepted as %s", what, vzClip(vzJSON(y)))
			return
		}
		for k, v := range b {
			if k == "Params" || k == "GP" || k == "I" {
				continue
			}
			vzSameDoc(what+"."+k, a[k], v)
		}
	case []any:
		a, _ := x.([]any)
		if len(a) != len(b) {
			vzFail("%s: %d entries accepted as %d", what, len(a), len(b))
			return
		}
		for i := range b {
			vzSameDoc(fmt.Sprintf("%s[%d]", what, i), a[i], b[i])
		}
	default:
		if vzJSON(x) != vzJSON(y) {
			vzFail("%s: %s accepted as %s", what, vzClip(vzJSON(x)), vzClip(vzJSON(y)))
		}
	}
}
