"""What the driver needs to know about each property."""
import importlib

MODULES = ['roots_bp', 'roots_vp', 'roots_vec', 'roots_main', 'roots_grp', 'roots_codec', 'roots_fs', 'roots_frame', 'roots_rand', 'roots_dep', 'roots_circl', 'roots_ind']
WITH_CONTRACTS = {'C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C09', 'C17', 'C18', 'C19'}

def load():
    for m in MODULES:
        try: importlib.import_module(m)
        except ModuleNotFoundError as e:
            if e.name != m: raise

GROUP = 'protocol code runs over an abstract prime-order group with the contract of the group interfaces; C11 proves that contract for the five implementations'
UNIT = 'challenges are nonzero modulo the group order (probability about 2^-256 otherwise)'
TRUST = {p: [GROUP] for p in ('C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C07', 'C08', 'C09', 'C10', 'C14', 'C16', 'C17', 'C18', 'C19')}
ASSUME = {'*': ['math/big, crypto, encoding/json and curve-library functions behave as their contracts in engine/lib.py, engine/groups.py and engine/jsonm.py say',
                'machine integers are not treated as mathematical (they wrap); memory suffices; no goroutines, unsafe code or reflection but that of encoding/json']}
for p in ('C01', 'C02', 'C04', 'C06'): ASSUME.setdefault(p, []).append(UNIT)
ASSUME['C16'] = ['hashing to the group finds a point for every seed, and different seeds give points of unknown mutual logarithm']
ASSUME['C17'] = ['SHA-256 is an uninterpreted function of the bytes written; collision resistance is not proved']
ASSUME['C19'] = ['crypto/rand.Int is uniform and independent at each call']
# library functions whose contract C11 proves from their bodies (roots_dep.py, roots_circl.py)
PROVED_DEPS = {'(*github.com/ing-bank/zkrp/crypto/p256.P256).' + m for m in ('IsZero', 'SetInfinity', 'String', 'Double', 'ScalarMult', 'ScalarBaseMult', 'Multiply', 'Add', 'Neg', 'IsOnCurve')}
PROVED_DEPS.add('(*github.com/ing-bank/zkrp/crypto/p256.MyBitCurve).Add')
PROVED_DEPS |= {'circl ' + m for m in ('circl.NewElement', 'circl.Identity', 'circl.Generator', 'circl.NewScalar', 'circlsc.SetBigInt')}
PROVED_DEPS |= {'circl circlel.' + m for m in ('Add', 'Dbl', 'Neg', 'Set', 'Copy', 'Mul', 'MulGen', 'IsEqual', 'IsIdentity', 'MarshalBinary', 'UnmarshalBinary')}
