"""Properties, and the contracts and client lemmas that decide each of them."""
import driver

FE, EF = 'Ed25519FieldElement', 'Ed25519EncodedFieldElement'

TRUSTED = [
    'golang.org/x/tools/go/ssa as the meaning of the Go source (sequential, 64-bit int)',
    'the verification condition generator and algebra kernel in /verif/vf',
    'z3 4.x for the obligations listed under its name',
]
ASSUMPTIONS = [
    'integers are mathematical; an operation whose exact result may leave its type wraps exactly',
    'panics are modelled; running out of memory and termination of loops without concrete bound are not',
]

PROPS = {
    'C05': dict(level='proof', roots=[
        '(%sEd25519FieldElement).add', '(%sEd25519FieldElement).subtract', '(%sEd25519FieldElement).negate',
        '(%sEd25519FieldElement).multiply', '(%sEd25519FieldElement).square',
        '(%sEd25519FieldElement).squareAndDouble', '(%sEd25519FieldElement).squareAndOptionalDouble',
        '(%sEd25519FieldElement).pow2to9', '(%sEd25519FieldElement).pow2to252sub4',
        '(%sEd25519FieldElement).invert', '%sEd25519FieldElementSqrt',
        '(%sEd25519FieldElement).IsNonZero', '(*%sEd25519FieldElement).Equals']),
    'C06': dict(level='proof', roots=[
        '(%sEd25519FieldElement).Encode', '(*%sEd25519EncodedFieldElement).Decode',
        '(%sEd25519FieldElement).IsNonZero', '(%sEd25519FieldElement).IsNegative',
        '(*%sEd25519EncodedFieldElement).IsNegative', '(*%sEd25519EncodedFieldElement).IsNonZero',
        '(*%sEd25519EncodedFieldElement).Equals']),
    'C07': dict(level='proof', roots=[
        '%sNewEd25519EncodedFieldElement', '(*%sEd25519EncodedFieldElement).modQ', '(*%sEd25519EncodedFieldElement).multiplyAndAddModQ']),
}

GEr, GEv = '(*%sEd25519GroupElement).', '(%sEd25519GroupElement).'
PROPS['C08'] = dict(level='proof', roots=[
    GEr + 'dbl', GEr + 'add', GEr + 'subtract', GEr + 'precomputedAdd', GEv + 'precomputedSubtract', GEr + 'negate',
    GEr + 'toCoordinateSystem', GEr + 'toP2', GEr + 'toP3', GEr + 'toCached', GEr + 'Equals',
    GEr + 'SatisfiesCurveEquation', '(*%sed25519Group).ZERO_P2', '(*%sed25519Group).ZERO_P3',
    '(*%sed25519Group).ZERO_PRECOMPUTED'])
PROPS['C09'] = dict(level='proof', roots=[
    GEr + 'scalarMultiply', GEr + 'doubleScalarMultiplyVariableTime', GEr + 'Select',
    GEr + 'PrecomputeForScalarMultiplication', GEr + 'PrecomputeForDoubleScalarMultiplication', GEr + 'slide'])
EGr = '(*%sEd25519EncodedGroupElement).'
PROPS['C10'] = dict(level='proof', roots=[
    EGr + 'Decode', EGr + 'GetAffineX', EGr + 'GetAffineY', GEr + 'Encode', '%sNewEd25519EncodedGroupElement'])



DSA = '(*%sEd25519DsaSigner).'
SG = '(*%sSigner).'
CIPH = '(*%sEd25519BlockCipher).'
PROPS['C01'] = dict(level='proof', roots=[
    'lemma: a signature verifies', GEr + 'slide', GEr + 'doubleScalarMultiplyVariableTime', DSA + 'Sign', DSA + 'Verify', DSA + 'IsCanonicalSignature'])
PROPS['C02'] = dict(level='proof', roots=[DSA + 'Sign', SG + 'Sign', '%sHashesSha3_512', '(*%sKeyPair).HasPrivateKey'])
PROPS['C03'] = dict(level='proof', roots=[
    GEr + 'slide', GEr + 'doubleScalarMultiplyVariableTime', DSA + 'Verify', SG + 'Verify', DSA + 'IsCanonicalSignature', '%sHashesSha3_512'])
PROPS['C04'] = dict(level='proof', roots=[
    '(*%sEd25519KeyGenerator).DerivePublicKey', '%sPrepareForScalarMultiply', '%sHashesSha3_512'])
PROPS['C11'] = dict(level='proof', roots=[
    'lemma: decryption returns', 'lemma: both sides derive', CIPH + 'GetSharedKey', CIPH + 'Encrypt', CIPH + 'Decrypt'])
PROPS['C12'] = dict(level='proof', roots=[CIPH + 'Decrypt', CIPH + 'GetSharedKey'])
PROPS['C13'] = dict(level='proof', roots=[
    CIPH + 'Encrypt', CIPH + 'GetSharedKey', 'lemma: successive encryptions'])
PROPS['C14'] = dict(level='proof', roots=[
    '%sNewSignature', '%sNewSignatureFromBytes', '%sNewSignatureFromBigInt', '(*%sSignature).GetR', '(*%sSignature).GetS',
    '(*%sSignature).Bytes', '(*%sSignature).String', '(*%sPrivateKey).String', '(*%sPublicKey).String',
    '%sNewPrivateKey', '%sNewPublicKey', '%sNewPrivateKeyfromHexString', '%sNewPublicKeyfromHex',
    'lemma: serialised signatures and keys'])
PROPS['C15'] = dict(level='proof', roots=[
    DSA + 'IsCanonicalSignature', DSA + 'MakeSignatureCanonical', SG + 'IsCanonicalSignature',
    SG + 'MakeSignatureCanonical', 'lemma: canonicalisation is idempotent'])
PROPS['C16'] = dict(level='proof', only=r'frame|fresh|memory|verified|executed|analysed|exists|own',
                    roots=['all contracts', 'lemma: copies of the base point', 'lemma: digests are independent'])
PROPS['C17'] = dict(level='proof', roots=['lemma: constants and tables'])
PROPS['C18'] = dict(level='proof', roots=[
    '%sHashesSha_256', '%sHashesKeccak_256', '%sHashesSha3_256', '%sHashesRipemd160', '%sHashesSha3_512',
    'lemma: digests are independent'])
PROPS['C19'] = dict(level='proof', roots=[
    '(*%sEd25519KeyGenerator).GenerateKeyPair', '%sNewRandomKeyPair', '%sNewEd25519KeyGenerator', '%sNewKeyPair',
    '(*%sEd25519KeyAnalyzer).IsKeyCompressed', '(*%sEd25519KeyGenerator).DerivePublicKey',
    'lemma: successive keys'])
MU = '(*%smathUtils).'
PROPS['C20'] = dict(level='proof', roots=[
    MU + n for n in (
        'BytesToBigInteger', 'EncodedFieldToBigInteger', 'FieldToBigInteger', 'IntsToBigInteger', 'ToByteArray',
        'ToEncodedFieldElement', 'toEncodedFieldElement', 'ToFieldElement', 'ReduceModGroupOrder',
        'multiplyAndAddModGroupOrder', 'AddGroupElements', 'DoubleGroupElement', 'NegateGroupElement',
        'ToRepresentation', 'ScalarMultiplyGroupElement', 'doubleScalarMultiplyGroupElements',
        'GetAffineXFromAffineY', 'ToGroupElement')])


def roots_of(ex, prop):
    P = ex.prog.pkg + '.'
    out = []
    for r in PROPS[prop]['roots']:
        if r.startswith('lemma: '):
            out.extend(n for n in ex.lemmas if n.startswith(r))
            continue
        if r == 'all contracts':
            out.extend(n for n in ex.contracts if n in ex.prog.funcs)
            continue
        n = r % P if '%s' in r else r
        # a helper that was folded into its callers has no contract left to check
        if n in ex.contracts and n not in ex.prog.funcs:
            continue
        out.append(n)
    return out


PARTIAL = {'github.com/proximax-storage/go-xpx-utils.BytesToBigInteger':
           'github.com/proximax-storage/go-xpx-utils.BytesToBigInteger (of more than 64 bytes)'}


def tasks_of(ex):
    t = {}
    for n, c in list(ex.contracts.items()) + list(ex.lemmas.items()):
        t[n] = driver.run_task(ex, c.verify)
    return t
