"""Which models, which inputs and which disagreements decide each property."""

# ------------------------------------------------------------------------------------------------
# models: constants for the two tiers, invariants and properties checked on every family

REPS = '{48, 0, 1, 2, 5, 128}'
REPS_MORE = '{48, 0, 1, 2, 5, 128, 129, 160, 255}'
YEARS = '{1970,1971,1972,1999,2000,2001,2023,2024,2049,2050,2099,2100,2101,2399,2400,2401,9998,9999}'
DER_INV = 'DerTypeOK DerNested Bracketed BracketedEnd OneError Traversal Encoded Adjacent NoPrefix Wraps Concats OnlyKnownIds'
VAL_INV = ('DerTypeOK DerNested BracketedEnd OneError Traversal Encoded Adjacent Rejected IntegerMeaning IntegersAccepted BitMeaning OidMeaning '
           'StringMeaning Consecutive Turns TimeMeaning')
SIZES = ['Counts = {7, 12, 17, 33, 65, 129, 257}', 'Lengths = {0, 1, 15, 16, 17, 33, 65, 129, 256, 257, 1025}', 'Long = {4097, 65536}']
SIZES_MORE = ['Counts = (1..40) \\cup {63, 64, 65, 66, 100, 127, 128, 129, 255, 256, 257, 511, 512, 513, 1025}',
              'Lengths = (0..70) \\cup {100, 127, 128, 129, 130, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2049}',
              'Long = {4095, 4096, 4097, 8191, 8192, 8193, 65534, 65535, 65536, 65537, 100000}']
MODULES = {
    'MCDer': dict(next='NextOrRest', const=['In <- MCIn'], quick=['Depth = 4', 'Width = 2', 'Reps = ' + REPS],
                  thorough=['Depth = 5', 'Width = 3', 'Reps = ' + REPS_MORE], inv=DER_INV, prop='DerProgress'),
    'MCValues': dict(next='NextOrRest', const=['In <- MCIn'], quick=['Depth = 5', 'Width = 3', 'Reps = ' + REPS, 'Years = ' + YEARS],
                     thorough=['Depth = 6', 'Width = 4', 'Reps = ' + REPS, 'Years = 1970..2130 \\cup {2399, 2400, 2401, 2800, 3000, 4000, 9996, 9998, 9999}'],
                     inv=VAL_INV, prop='DerProgress'),
    'MCX509': dict(next='NextOrRest', const=['In <- MCIn'], quick=['Big = FALSE'], thorough=['Big = TRUE'],
                   inv='XTypeOK Agrees Refused SignedRegion ItemsInOrder', prop='XProgress'),
    'MCPrint': dict(next='NextOrRest', const=['In <- MCIn'], quick=['Big = FALSE'], thorough=['Big = TRUE'],
                    inv='XTypeOK Agrees WellNested OnlyHeadingsOpen Order EveryExtension EveryAttribute', prop='XProgress'),
    'MCShapes': dict(next='NextOrRest', const=['In <- MCIn', 'Depth = 1', 'Width = 1', 'Reps = {0}'], quick=['MaxN = 12'], thorough=['MaxN = 40'], inv='ShapeCounts', prop='DerProgress'),
    'MCWork': dict(next='WorkNext', const=['In <- MCIn', 'Big = FALSE'], quick=['MaxN = 12'], thorough=['MaxN = 60'], inv='XTypeOK WorkCounts WorkLinear', prop='XProgress'),
    'MCMisc': dict(next='NextBits', const=[], quick=['Steps = 4'], thorough=['Steps = 5'], inv='YieldsPrefix Bounded', prop=''),
    'MCBits': dict(next='Next', const=[], quick=['Steps = 3'], thorough=['Steps = 4'], inv='Bounded Ended', prop='Forward'),
    'MCSizesDer': dict(next='NextOrRest', const=['In <- MCIn', 'Depth = 1', 'Width = 1', 'Reps = {0}', 'Years = {2000}'], quick=SIZES, thorough=SIZES_MORE,
                       inv='DerTypeOK BracketedEnd OneError Encoded', prop='DerProgress'),
    'MCMemory': dict(next='MemNext', const=['In <- MCIn', 'Depth = 1', 'Width = 1', 'Reps = {0}', 'Years = {2000}'], quick=SIZES, thorough=SIZES_MORE,
                     inv='DerTypeOK BracketedEnd OneError DeepEnough DeepIsDepth', prop='DerProgress MemProgress'),
    'MCSizesX509': dict(next='NextOrRest', const=['In <- MCIn', 'Big = FALSE'], quick=SIZES, thorough=SIZES_MORE, inv='XTypeOK Agrees SignedRegion ItemsInOrder', prop='XProgress'),
    'MCCalendar': dict(next='Next', const=[], quick=['FirstYears = {1970,1971,1972,1999,2000,2001,2099,2100,2101,2399,2400,9999}'],
                       thorough=['FirstYears = 1970..9999'], inv='Formula Epoch Real LeapFeb', prop=''),
    'MCConsole': dict(next='Next', const=[], quick=['Steps = 3', 'Depths = {0, 1, 2, 9}'], thorough=['Steps = 4', 'Depths = {0, 3}'], inv='Shows Balance', prop='Grows'),
    'MCSession': dict(next='Next', const=[], quick=['Steps = 3'], thorough=['Steps = 4'], inv='OneAnswer NotMixed HeldAreCertificates', prop='Isolated'),
    'MCCompare': dict(next='Next', const=['InA <- CompareA', 'InB <- CompareB'], quick=['LongLengths = {127, 128, 300}'],
                      thorough=['LongLengths = {15, 16, 17, 127, 128, 129, 255, 256, 257, 300, 1025, 4097}'],
                      inv='CompareTypeOK SameIsIdentity OpenIsAlike OrderIsDate SameShown OneType Complete', prop='Ends'),
    'MCMade': dict(next='Next', const=['In <- MCIn'], quick=['Lengths = {0, 1, 15, 16, 17, 32, 33, 257}', 'Depths = {0, 1, 3}'],
                   thorough=['Lengths = (0..70) \\cup {127, 128, 255, 256, 257, 1023, 1025, 4097}', 'Depths = {0, 1, 2, 3, 7, 60, 300}'],
                   inv='Said Nested Shifts AllShown PurposeRight', prop='Balanced'),
    'MCCli': dict(next='Next', const=['In <- MCIn'], quick=['Many = FALSE', 'Sizes = {1, 15, 16, 17, 40, 65, 127, 128, 129, 256, 1025, 4097, 65536}', 'Millions = {1048570, 2097153, 16777300}'],
                  thorough=['Many = TRUE', 'Sizes = (0..70) \\cup {100, 127, 128, 129, 200, 255, 256, 257, 299, 511, 512, 513, 1023, 1024, 1025, 2047, 2048, 2049, 4097, 8193, 65535, 65536, 65537, 200000}', 'Millions = {262145, 524289, 1048570, 1048577, 2097153, 4194305, 8388609, 16777210, 16777300, 40000000}'],
                  inv='CliTypeOK LossTold NoDecodeOnFailure StatusRight OneOfTwo WholeLines TreeShown CertShown', prop='OnlyGrows Ends'),
}

# models of clients, who may stop at any time; in the others only what has ended may stand still
BOUNDED = {'MCBits', 'MCMisc', 'MCCalendar', 'MCConsole', 'MCSession', 'MCMade'}

FAMILIES = {}
for _m, _fs in {
    'MCDer': 'InitIds InitIds2 InitLen InitLenBig InitForest InitFaults InitTrie InitPrefixes InitCuts InitTwoFaults InitPairs',
    'MCValues': 'InitBoolNull InitInt InitIntValues InitBits InitOid InitUtf8 InitScalars InitMonthsUtc InitMonthsGen InitDecades InitTimeFields InitTimeOctets InitTimeForms',
    'MCX509': 'InitCertOps InitCertSurplus InitCertPrefixes InitCertCuts InitCertFields InitCertOptional InitCertPositions InitCertInserted InitNameValues InitNameGroups InitNameOps '
              'InitKeyUsage InitConstraints InitAltNames InitPurposes InitExtIds InitRaw InitCritical InitExtOps InitExtPrefixes InitExtCuts InitExtLists '
              'InitCertTwo InitExtTwo',
    'MCPrint': 'InitPrintCerts',
    'MCShapes': 'InitShapes',
    'MCWork': 'InitWork',
    'MCMisc': 'InitBitReader InitBitStrings InitWindows InitCertWindows InitConstructed',
    'MCBits': 'InitHistories',
    'MCSizesDer': 'InitSizesValues InitSizesTrees InitPatterns InitNearKnown InitSizesFaults',
    'MCMemory': 'InitClaims InitLiars InitMany',
    'MCSizesX509': 'InitHollow InitSizesNames InitSizesExts InitSizesCerts InitPatternsExt InitPatternsCert InitOrders InitNearExts InitNearAttrs InitTwice InitSizesNumbers',
    'MCCalendar': 'Init',
    'MCConsole': 'InitConsole InitDeep',
    'MCSession': 'InitSessions',
    'MCCompare': 'InitGroups InitFaulty',
    'MCMade': 'InitMadeNames InitMadeContents InitMadeAltNames InitMadeParts InitMadePurposes',
    'MCCli': 'InitFlags InitCounts InitContents InitPrinted InitLarge InitHuge InitSinks InitPieces InitSurroundings',
}.items():
    for _f in _fs.split():
        FAMILIES[_f] = _m


def config(family, tier):
    m = MODULES[FAMILIES[family]]
    lines = ['INIT ' + family, 'NEXT ' + m['next']]
    lines += ['CONSTANT ' + c for c in m['const'] + m[tier]]
    lines.append('INVARIANTS ' + m['inv'])
    if m['prop']:
        lines.append('PROPERTY ' + m['prop'])
    return '\n'.join(lines + ['CHECK_DEADLOCK ' + ('FALSE' if FAMILIES[family] in BOUNDED else 'TRUE'), ''])


# ------------------------------------------------------------------------------------------------
# properties
#
#   families  name -> flags (t texts, p printing, c only returns), or (flags, labels)
#   more      further families of the thorough tier
#   random    kind -> (quick, thorough, flags)
#   labels    disagreements that break the property: "aspect@detail", regular expressions.
#             Recording aspects are listed in spec/trace; the detail is the element kind or the
#             kind of error the specification expects.
#   shapes    sizes of large inputs by shape, quick and thorough
#   threads   families that are also run by several threads at once

LEN = '(EndOfStream|IndefiniteLength|ReservedLength|LengthByteCount|BadLengthEncoding)'
V8 = '(BadBooleanLength|BadBooleanValue|ZeroLengthInteger|NullWithContents)'
NUMBERS, STRINGS, TIMES = '(Boolean|Null|Integer)', '(UTF8String|PrintableString|IA5String)', '(UTCTime|GeneralizedTime)'
# faults of the structure, as opposed to those of one value; ? is a fault told in unknown words
FORM = '(EndOfStream|UnsupportedId|UnexpectedType|ExpectedEnd|UnexpectedOid|UnexpectedTag|BadEnumValue|IntegerTooLarge|\\?)'
CALLS = '(cert|iname|sname|elist|ext)'
EXTS = '(ext|elist)'


def value(kinds, faults):
    """disagreements about elements of these kinds, and about these faults of values"""
    return (r'(value|slice|kind|panic|missing|callback)@%s  rejected@(%s/.*|.*/%s)  (accepted|passed)@%s  panic@  %s\.(accepted|rejected)@%s(/.*)?'
            % (kinds, kinds, faults, faults, CALLS, faults))

P = {}


def prop(pid, families, labels, random=None, more=None, **kw):
    P[pid] = dict(families=families, labels=labels.split('  '), random=random or {}, more=more or {}, **kw)


ALL_X = ('InitCertOps InitCertSurplus InitCertPrefixes InitCertCuts InitCertFields InitCertOptional InitNameValues InitNameGroups InitNameOps '
         'InitKeyUsage InitConstraints InitAltNames InitPurposes InitExtIds InitRaw InitCritical InitExtOps InitExtPrefixes InitExtCuts InitExtLists').split()
ALL_DER = 'InitIds InitIds2 InitLen InitFaults InitTrie InitBoolNull InitBits InitOid InitTimeForms InitTimeFields'.split()

prop('C01', {**{f: 'cp' for f in ('InitLenBig', 'InitLen', 'InitTrie', 'InitIds2', 'InitBits', 'InitOid', 'InitTimeForms', 'InitTimeFields', 'InitBoolNull',
                                  'InitCertPrefixes', 'InitCertCuts', 'InitKeyUsage', 'InitExtCuts', 'InitExtPrefixes', 'InitNameOps', 'InitCertFields', 'InitRaw')},
             'InitShapes': 'z', 'InitHistories': '-', 'InitBitStrings': '-', 'InitConstructed': '-', 'InitPrintCerts': 'cp',
             'InitSizesValues': 'ct', 'InitSizesTrees': 'ct', 'InitSizesNames': 'cp', 'InitSizesExts': 'cp', 'InitSizesCerts': 'cp'},
     r'panic@.*  callbacks@.*  malformed@.*',
     random={'der': (60000, 800000, 'ct'), 'cert': (16000, 250000, 'cp'), 'ext': (24000, 300000, 'cp'), 'name': (12000, 150000, 'cp')},
     more={f: 'cp' for f in ALL_X + ALL_DER + ['InitUtf8', 'InitInt', 'InitMonthsGen']},
     shapes=({1: [1000, 100000, 1000000], 2: [200000], 3: [1000000], 4: [300000], 5: [200000], 6: [150000], 7: [3000000], 8: [300000]},
             {1: [1000, 100000, 1000000, 4000000], 2: [1000000], 3: [5000000], 4: [2000000], 5: [1000000], 6: [1000000], 7: [60000000], 8: [2000000]}))

prop('C02', {'InitIds': 't', 'InitIds2': 't', 'InitFaults': 't', 'InitConstructed': '-', 'InitExtOps': '-', 'InitCertOps': '-'},
     r'(accepted|passed)@UnsupportedId  rejected@.*/(UnsupportedId|EndOfStream|\?)  kind@.*  value@ExplicitTag  error@UnsupportedId  prim\.identifier@.*  panic@.*  '
     + CALLS + r'\.accepted@(UnsupportedId|UnexpectedType)',
     random={'der': (6000, 200000, 't')}, more={'InitTrie': 't', 'InitNameOps': '-', 'InitExtLists': '-'})

prop('C03', {'InitSizesValues': '-', 'InitLen': '-', 'InitLenBig': '-', 'InitTrie': '-', 'InitPrefixes': '-', 'InitExtCuts': '-', 'InitExtPrefixes': '-'},
     r'(accepted|passed)@' + LEN + r'  rejected@.*/(' + LEN + r'|\?)  (slice|missing|surplus|callback|panic)@.*  ' + CALLS + r'\.accepted@' + LEN,
     random={'der': (8000, 200000, '-'), 'cert': (200, 20000, '-')}, more={'InitForest': '-', 'InitCertCuts': '-', 'InitCertPrefixes': '-'},
     shapes=({7: [65535, 65536, 16777215, 16777216], 8: [40000]}, {7: [65535, 65536, 16777215, 16777216, 100000000], 8: [40000, 9000000]}))

prop('C04', {'InitSizesTrees': '-', 'InitForest': '-', 'InitFaults': '-', 'InitTrie': '-', 'InitPairs': '-', 'InitShapes': 'z'},
     r'(accepted|passed|rejected)@(|.*/)(' + LEN + r'|UnsupportedId|\?)  rejected@(|Sequence|Set|ExplicitTag)/.*  (callback|kind|slice|return|missing|surplus|panic)@.*  value@ExplicitTag  sum.*',
     random={'der': (20000, 400000, '-')}, more={'InitLen': '-', 'InitIds': '-'},
     shapes=({1: [300000], 3: [300000], 4: [100000], 5: [100000], 6: [50000], 8: [100000]}, {1: [2000000], 3: [3000000], 4: [1000000], 5: [1000000], 6: [1000000], 8: [1000000]}))

prop('C05', {'InitSizesFaults': '-', 'InitSizesTrees': '-', 'InitForest': '-', 'InitFaults': '-', 'InitTrie': '-', 'InitTwoFaults': '-', 'InitShapes': 'z', 'InitCuts': '-'},
     r'(accepted|passed|rejected)@(|.*/)(' + LEN + r'|UnsupportedId|\?)  rejected@(|Sequence|Set|ExplicitTag)/.*  (callback|return|same|missing|surplus|panic)@.*  sum.*',
     random={'der': (20000, 400000, '-')}, more={'InitLen': '-', 'InitIds': '-'},
     shapes=({1: [100000], 2: [100000], 4: [100000], 5: [100000]}, {1: [1000000], 2: [1000000], 4: [1000000], 5: [1000000]}))

prop('C06', {f: '-' for f in 'InitSizesExts InitPrefixes InitCuts InitCertPrefixes InitCertCuts InitExtCuts InitExtPrefixes InitNameOps InitCertSurplus InitAltNames InitPurposes InitConstraints'.split()},
     r'(accepted|passed)@EndOfStream  (missing|callback|return|panic)@.*  ' + CALLS + r'\.accepted@(EndOfStream|BadOidLength)',
     random={'cert': (300, 30000, '-'), 'ext': (2000, 60000, '-'), 'name': (1000, 60000, '-')}, more={'InitExtOps': '-', 'InitCertOps': '-', 'InitExtLists': '-'})

prop('C07', {f: '-' for f in ('InitCertInserted InitCertSurplus InitCertPrefixes InitCertFields InitExtOps InitExtPrefixes InitNameOps InitTimeForms InitTimeFields InitKeyUsage InitConstraints InitAltNames '
                              'InitPurposes InitRaw InitExtLists').split()},
     r'(accepted|passed)@BadUTCTime  panic@.*  ' + CALLS + r'\.accepted@.*',
     random={'cert': (300, 30000, '-'), 'ext': (2000, 60000, '-'), 'name': (1000, 60000, '-')}, more={'InitCertOps': '-'})

prop('C08', {'InitPatterns': '-', 'InitSizesValues': '-', 'InitBoolNull': '-', 'InitInt': '-', 'InitIntValues': '-', 'InitConstructed': '-', 'InitCertFields': '-', 'InitConstraints': '-'},
     value(NUMBERS, V8) + r'  prim\.int@.*  cert\.serial@.*',
     random={'der': (4000, 200000, '-')})

prop('C09', {'InitPatterns': '-', 'InitSizesValues': '-', 'InitBits': '-', 'InitHistories': '-', 'InitBitReader': '-', 'InitBitStrings': '-', 'InitConstructed': '-', 'InitCertFields': '-', 'InitCertOptional': '-', 'InitKeyUsage': '-'},
     value('BitString', '(UnusedBits|EndOfStream)') + r'  iterator.*  prim\.bitstring@.*  panic@',
     random={'der': (4000, 200000, '-')})

prop('C10', {'InitNearKnown': '-', 'InitSizesValues': '-', 'InitOid': '-', 'InitConstructed': '-', 'InitCertFields': '-', 'InitAltNames': '-', 'InitExtIds': '-'},
     value('ObjectIdentifier', '(BadOidLength|EndOfStream)') + r'  prim\.oid@.*  cert\.(sigalg|spkalg|alg)@(.*\+)?oid(\+.*)?',
     random={'der': (6000, 200000, '-')})

prop('C11', {'InitSizesValues': '-', 'InitSizesNames': '-', 'InitUtf8': '-', 'InitScalars': '-', 'InitNameValues': '-', 'InitAltNames': '-', 'InitRaw': '-'},
     value(STRINGS, 'BadUTF8') + r'  (iname|sname)\.(C|ST|L|O|OU|CN)@.*  ' + EXTS + r'\.c@.*(SubjectAlternativeName|ModbusRole).*', random={'der': (4000, 200000, '-'), 'name': (1000, 60000, '-')})

prop('C12', {'Init': '-', 'InitMonthsUtc': '-', 'InitDecades': '-', 'InitMonthsGen': '-', 'InitTimeFields': '-', 'InitTimeOctets': '-', 'InitTimeForms': '-', 'InitCertWindows': '-'},
     value(TIMES, 'BadUTCTime') + r'  cert\.(nb|na)@.*', random={'der': (4000, 200000, '-')})

prop('C13', {'InitNearKnown': 't', 'InitPatterns': 't', 'InitSizesValues': 't', 'InitBoolNull': 't', 'InitInt': 't', 'InitIntValues': 't', 'InitOid': 't', 'InitMonthsUtc': 't', 'InitMonthsGen': 't', 'InitIds': 't', 'InitScalars': 't', 'InitForest': 't',
             'InitConstructed': '-', 'InitLen': 't'},
     r'text@.*  prim\.text@.*  panic@.*', random={'der': (12000, 300000, 't')}, more={'InitUtf8': 't', 'InitTimeOctets': 't', 'InitTimeFields': 't'})

FIELDS = r'cert\.(tbs|ver|serial|sigalg|issuer|nb|na|subject|spkalg|spkkey|alg|sig'
prop('C14', {'InitCertInserted': '-', 'InitSizesNumbers': '-', 'InitPatternsCert': '-', 'InitSizesCerts': '-', 'InitCertOps': '-', 'InitCertPositions': '-', 'InitCertFields': '-'}, FIELDS + r'|iuid|suid|exts)@.*  cert\.accepted@' + FORM + r'  cert\.rejected@.*  panic@.*',
     random={'cert': (1500, 60000, '-')}, more={'InitCertOptional': '-', 'InitCertTwo': '-', 'InitCertSurplus': '-'})

prop('C15', {'InitCertInserted': '-', 'InitSizesNumbers': '-', 'InitCertOptional': '-', 'InitCertFields': '-', 'InitCertPositions': '-'}, r'cert\.(ver|iuid|suid|exts)@.*  cert\.accepted@' + FORM + r'  cert\.rejected@.*  panic@.*',
     random={'cert': (1500, 60000, '-')}, more={'InitCertOps': '-'})

prop('C16', {'InitPatternsCert': '-', 'InitSizesCerts': '-', 'InitCertFields': '-', 'InitCertOptional': '-', 'InitPrintCerts': '-', 'InitForest': '-', 'InitRaw': '-', 'InitAltNames': '-', 'InitNameGroups': '-'},
     r'cert\.(tbs|serial|issuer|subject|spkkey|sig|iuid|suid|alg|sigalg|spkalg)@(.*\+)?(slice|par)(\+.*)?  slice@.*  (iname|sname)\.(C|ST|L|O|OU|CN)@(slice|)  '
     + EXTS + r'\.c@.*(SubjectKeyIdentifier|SubjectAlternativeName|ModbusRole|Unknown).*  panic@.*',
     random={'cert': (2000, 60000, '-')}, more={'InitCertOps': '-', 'InitNameValues': '-'}, corpus=True)

prop('C17', {'InitNearAttrs': '-', 'InitTwice': '-', 'InitOrders': '-', 'InitSizesNames': '-', 'InitNameValues': '-', 'InitNameGroups': '-', 'InitNameOps': '-', 'InitCertFields': '-'}, r'(iname|sname)\.(C|ST|L|O|OU|CN)@.*  (iname|sname)\.accepted@' + FORM + r'  (iname|sname)\.rejected@.*  panic@.*',
     random={'name': (8000, 200000, '-'), 'cert': (500, 30000, '-')}, more={'InitCertOps': '-'})

prop('C18', {'InitSizesCerts': '-', 'InitSizesExts': '-', 'InitExtLists': '-', 'InitCritical': '-', 'InitExtIds': '-', 'InitExtOps': '-'}, EXTS + r'\.((count|oid|crit)@.*|accepted@(EndOfStream|UnsupportedId|UnexpectedType|ExpectedEnd)|rejected@.*)  panic@.*',
     random={'cert': (1200, 60000, '-'), 'ext': (3000, 100000, '-')}, more={'InitCertOps': '-', 'InitCertSurplus': '-'}, corpus=True)

for pid, fam, kind, oid, faults in (('C19', 'InitKeyUsage', 'KeyUsage', '551d0f', FORM), ('C20', 'InitConstraints', 'BasicConstraints', '551d13', FORM),
                                    ('C21', 'InitAltNames', 'SubjectAlternativeName', '551d11', '(' + FORM + '|BadUTF8|BadOidLength)'), ('C22', 'InitPurposes', 'ExtendedKeyUsage', '551d25', FORM)):
    prop(pid, {fam: '-', 'InitSizesNumbers': '-', 'InitPatternsExt': '-', 'InitOrders': '-', 'InitNearExts': '-', 'InitSizesExts': '-', 'InitExtOps': '-', 'InitCritical': '-'},
         EXTS + r'\.((c|kind)@(.*\+)?%s(\+.*)?|accepted@%s|rejected@.*/(.*\+)?%s(\+.*)?)  panic@.*' % (kind, faults, kind),
         random={'ext': (8000, 200000, '-'), 'cert': (300, 20000, '-')}, more={'InitExtLists': '-', 'InitExtCuts': '-'}, only=[oid])

WHOLE = '(SubjectKeyIdentifier|ModbusRole|Unknown)'
prop('C23', {'InitNearExts': '-', 'InitPatternsExt': '-', 'InitSizesExts': '-', 'InitExtIds': '-', 'InitRaw': '-', 'InitCritical': '-', 'InitKeyUsage': '-', 'InitExtLists': '-'}, EXTS + r'\.(kind@.*|c@(.*\+)?%s(\+.*)?|accepted@%s|rejected@.*/(.*\+)?%s(\+.*)?)  panic@.*' % (WHOLE, FORM, WHOLE),
     only=['551d0e', '2b060104018389' ], random={'ext': (8000, 200000, '-')}, more={'InitExtOps': '-', 'InitConstraints': '-', 'InitPurposes': '-', 'InitAltNames': '-'}, corpus=True)

prop('C24', {'InitWindows': '-', 'InitCertWindows': '-', 'InitCertFields': '-'}, r'valid.*  cert\.(nb|na)@.*  cert\.accepted@(EndOfStream|UnsupportedId|UnexpectedType|ExpectedEnd)  cert\.rejected@.*  panic@.*', random={'cert': (800, 40000, '-')}, more={'InitCertOps': '-'})

prop('C25', {'InitConsole': '-', 'InitDeep': '-', 'InitOrders': 'p', 'InitSizesExts': 'p', 'InitSizesCerts': 'p', 'InitPrintCerts': 'p', 'InitExtIds': 'p', 'InitRaw': 'p', 'InitNameGroups': 'p'}, r'print.*  console@.*  panic@.*', random={'cert': (500, 20000, 'p'), 'ext': (3000, 60000, 'p')},
     more={'InitExtLists': 'p', 'InitCertOptional': 'p', 'InitCertFields': 'p', 'InitKeyUsage': 'p', 'InitAltNames': 'p', 'InitPurposes': 'p', 'InitConstraints': 'p', 'InitNameValues': 'p'}, corpus=True)

prop('C26', {'InitFlags': '-', 'InitCounts': '-', 'InitContents': '-', 'InitPrinted': '-', 'InitLarge': '-', 'InitHuge': '-', 'InitPieces': '-', 'InitSurroundings': '-'}, r'cli\..*', random={'cli': (300, 6000, '-')}, corpus=True)

prop('C27', {'InitPairs': 't', 'InitForest': '-', 'InitPrintCerts': 'p', 'InitExtLists': '-', 'InitSessions': '-'}, r'.*', confirm=True, sessions=(400, 8000),
     random={'der': (6000, 100000, 't'), 'cert': (400, 10000, 'tp'), 'ext': (2000, 50000, 't'), 'name': (1000, 20000, 't')},
     threads={'InitPairs', 'InitForest', 'InitPrintCerts', 'random'})

prop('C28', {'InitTwice': 't', 'InitSizesFaults': 't', 'InitSizesNumbers': 't', 'InitSizesExts': 't', 'InitNearExts': 't', **{f: 't' for f in 'InitTwoFaults InitFaults InitIds InitBoolNull InitOid InitTimeForms InitCertTwo InitExtTwo InitExtOps InitNameOps InitConstraints InitPurposes'.split()},
             'InitLen': 't', 'InitCertFields': 't', 'InitBits': 't', 'InitAltNames': 't', 'InitNameValues': 't', 'InitUtf8': 't', 'InitRaw': 't'},
     r'error@.*  same@.*  ' + CALLS + r'\.error@.*  passed@.*  return@.*  panic@.*',
     random={'der': (8000, 200000, 't'), 'cert': (800, 40000, 't'), 'ext': (3000, 80000, 't'), 'name': (1500, 40000, 't')},
     more={'InitCertOps': 't', 'InitCertPositions': 't', 'InitCertOptional': 't', 'InitExtLists': 't', 'InitIds2': 't', 'InitTrie': 't'})

prop('C29', {'InitGroups': '-', 'InitFaulty': '-'}, r'compare\..*  panic@.*', random={'pair': (4000, 120000, '-')})

prop('C30', {'InitSinks': '-', 'InitPieces': '-', 'InitFlags': '-'}, r'cli\..*')

prop('C31', {f: '-' for f in 'InitClaims InitLiars InitMany InitHollow InitLen InitForest InitOid InitSizesTrees InitSizesValues InitSizesFaults InitShapes InitSizesExts InitSizesNames InitSizesCerts InitExtLists InitNameOps InitConstraints'.split()},
     r'memory\..*  panic@.*', random={'der': (8000, 200000, '-'), 'cert': (800, 40000, '-'), 'ext': (3000, 80000, '-'), 'name': (1500, 40000, '-')},
     more={f: '-' for f in 'InitCertOps InitExtOps InitTrie InitLenBig InitAltNames InitPurposes InitCertFields InitUtf8'.split()}, memory=True,
     shapes=({1: [100000], 2: [20000], 3: [300000], 4: [100000], 5: [50000], 6: [30000], 7: [3000000], 8: [100000]},
             {1: [2000000], 2: [1000000], 3: [3000000], 4: [1000000], 5: [1000000], 6: [1000000], 7: [60000000], 8: [1000000]}))

MILLION = 1000000
WORK = {1: [MILLION], 2: [400000], 3: [3 * MILLION], 4: [3 * MILLION], 5: [600000], 6: [400000], 7: [5 * MILLION], 8: [2 * MILLION], 9: [3 * MILLION], 10: [3 * MILLION], 11: [5 * MILLION],
        21: [200000], 22: [200000], 23: [600000], 24: [400000], 25: [300000], 26: [300000], 27: [2 * MILLION], 28: [2 * MILLION], 29: [400000], 30: [3 * MILLION], 31: [3 * MILLION],
        32: [2 * MILLION], 33: [2 * MILLION], 34: [200000], 35: [2 * MILLION], 12: [600000], 13: [5 * MILLION], 14: [MILLION], 36: [2 * MILLION], 37: [2 * MILLION], 38: [2 * MILLION], 39: [600000], 40: [300000]}
prop('C33', {**{f: '-' for f in FAMILIES if f.startswith('InitMade')}, 'InitPrintCerts': 'q', 'InitExtLists': 'q', 'InitNameGroups': 'q', 'InitRaw': 'q', 'InitAltNames': 'q', 'InitCertOptional': 'q'},
     r'made\..*  parts.*  panic@.*', random={'cert': (600, 20000, 'q'), 'ext': (3000, 60000, 'q'), 'name': (1500, 40000, 'q')},
     more={f: 'q' for f in 'InitExtIds InitKeyUsage InitPurposes InitConstraints InitNameValues InitOrders InitSizesExts InitSizesCerts InitCertFields'.split()}, corpus=True)

prop('C32', {'InitWork': '-', 'InitShapes': '-'}, r'work\..*', work=True,
     shapes=(WORK, {s: [n // 3 for n in ns] + ns + [4 * n for n in ns] for s, ns in WORK.items()}))
