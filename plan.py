"""Which parts of the specification decide which property.

A job is (module, configuration), or (module, configuration, walks per worker,
depth) for random walks from VERIF_SEED.  TLC explores MC_<module>.tla under
<module>_<configuration>.cfg and emits behaviours, which the harness replays
into the crates.
"""

H = ("Framing", "header")
N = ("Framing", "nest")
D = ("Framing", "deep")
RUNS = [("Runs", "quick"), ("Runs", "sizes"), ("Runs", "depth")]
HT = ("Framing", "header_thorough")
NT = ("Framing", "nest_thorough")
DT = ("Framing", "deep_thorough")
RUNS_T = [("Runs", "thorough"), ("Runs", "sizes"), ("Runs", "depth")]
ID, ID_T = ("Ident", "quick"), ("Ident", "thorough")
SQ, ST = ("Serde", "quick"), ("Serde", "thorough")
SE, SET = ("Serde", "edges"), ("Serde", "edges_thorough")
SU, SUT = ("Serde", "unk"), ("Serde", "unk_thorough")
SF, SFT = ("Serde", "forms"), ("Serde", "forms_thorough")
EF, EN, ENT = ("Elements", "flat"), ("Elements", "nest"), ("Elements", "nest_thorough")
EE, EET = ("Elements", "entries"), ("Elements", "entries_thorough")
EPT = ("Elements", "pairs_thorough")


def walk(module, quick, depth, more=12):
    return (module, "walk", quick, depth), (module, "walk", quick * more, depth)


OW, OWT = walk("Objects", 400, 13)
IW, IWT = walk("Ident", 700, 40)
LW, LWT = walk("LengthOctets", 500, 70)
CW, CWT = walk("Scalar", 500, 20)
FW, FWT = walk("Framing", 1500, 80)
MW, MWT = walk("Stream", 400, 18)
AW, AWT = walk("SerdeStream", 400, 15)
RW, RWT = walk("Reader", 300, 300)
EW, EWT = walk("Elements", 500, 16)
WW, WWT = walk("Writer", 100, 330)
TW, TWT = walk("Text", 300, 14)
XW, XWT = walk("ErrorChain", 200, 14)
BW, BWT = walk("Builders", 300, 12)
VW, VWT = walk("Serde", 300, 14)
DW, DWT = walk("Derive", 25, 7, 8)
UW, UWT = walk("Faults", 60, 8)
GW, GWT = ("Derive", "blamewalk", 6, 7), ("Derive", "blamewalk", 150, 7)
KQ, KN, KT = ("Bulk", "quick"), ("Bulk", "nest"), ("Bulk", "thorough")
KW, KWT = walk("Bulk", 15, 5)
TE, TV = ("Text", "edges"), ("Text", "every")
TET = ("Text", "edges_thorough")


def drv(*names):
    return [("Derive", n) for n in names]


# What is replayed elsewhere: a property, the jobs that decide it, and whether they depend on the word of the target.
BASIC = [
    ("P01", [ID], False), ("P02", [ID], False), ("P03", [("Objects", "ident"), ("Objects", "inplace")], False),
    ("P04", [("LengthOctets", "quick")], True), ("P05", [H], True), ("P06", [H], True),
    ("P10", [("Scalar", "int")], False), ("P11", [("Scalar", "bool")], False),
    ("P12", [("Builders", "sizes"), ("Builders", "pieces"), ("Scalar", "int")], False),
    ("P13", [("Objects", "edit")], False), ("P14", [("IdOrder", "quick"), ("Objects", "copy")], False),
]
SERIAL = [("P16", [SQ], True), ("P17", [SQ], True), ("P18", [SQ], True), ("P19", [EF], True), ("P30", [TE], False)]
# These take an interpreter several times as long as the others.
COST = {"P03": 2, "P16": 4, "P19": 6}
MORE = [
    ("P07", [("Reader", "quick"), ("Stream", "quick")], True), ("P08", [("Stream", "quick")], True),
    ("P22", [("SerdeStream", "quick")], True), ("P23", [("Writer", "quick")], True),
    ("P06", [N], True), ("P19", [EN], True), ("P20", [SF], True), ("P21", [SF], True), ("P24", [EE], True),
]


PLAN = {
    "P01": dict(quick=[ID, IW], thorough=[ID_T, IWT], only=["idb", "idc"]),
    "P02": dict(quick=[ID, IW], thorough=[ID_T, IWT], only=["idp"]),
    "P03": dict(quick=[("Objects", "ident"), ("Objects", "inplace"), OW],
                thorough=[("Objects", "ident_thorough"), ("Objects", "inplace"), ("Objects", "edit_thorough"), OWT]),
    "P04": dict(quick=[("LengthOctets", "quick"), LW], thorough=[("LengthOctets", "thorough"), LWT]),
    "P05": dict(quick=[H, N] + RUNS + [FW], thorough=[HT, NT] + RUNS_T + [FWT], mode="der"),
    "P06": dict(quick=[H, N, D] + RUNS + [FW], thorough=[HT, NT, DT] + RUNS_T + [FWT], mode="ber"),
    "P07": dict(quick=[("Reader", "quick"), ("Stream", "quick"), N, D] + RUNS + [RW, MW, FW], thorough=[("Reader", "thorough"), ("Stream", "thorough"), HT, NT, DT] + RUNS_T + [RWT, MWT, FWT]),
    "P08": dict(quick=[("Stream", "quick"), ID, H, N, D] + RUNS + [MW, IW, FW], thorough=[("Stream", "thorough"), ID_T, HT, NT, DT] + RUNS_T + [MWT, IWT, FWT],
                only=["cur", "idp", "tlv", "run"]),
    "P09": dict(quick=[H, N, D, EF, EN] + RUNS + drv("kinds") + [FW, EW], thorough=[HT, NT, DT, EF, ENT, EPT] + RUNS_T + drv("kinds", "convwhole", "trans") + [FWT, EWT, DWT], profiles=["dev", "release"], control=False),
    "P10": dict(quick=[("Scalar", "int"), CW], thorough=[("Scalar", "int_thorough"), CWT]),
    "P11": dict(quick=[("Scalar", "bool")], thorough=[("Scalar", "bool_thorough")]),
    "P12": dict(quick=[("Builders", "sizes"), ("Builders", "pieces"), ("Builders", "huge"), ("Scalar", "int"), ("Scalar", "bool"), TE, BW, TW],
                thorough=[("Builders", "sizes_thorough"), ("Builders", "pieces_thorough"), ("Builders", "huge"), BWT, TWT,
                          ("Scalar", "int_thorough"), ("Scalar", "bool"), TET, TV]),
    "P13": dict(quick=[("Objects", "edit"), ("Objects", "large"), ("Objects", "huge"), OW],
                thorough=[("Objects", "edit_thorough"), ("Objects", "large_thorough"), ("Objects", "huge"), OWT]),
    "P14": dict(quick=[("IdOrder", "quick"), ("Objects", "copy"), ("Objects", "inplace"), OW],
                thorough=[("IdOrder", "quick"), ("Objects", "copy_thorough"), ("Objects", "edit_thorough"), OWT]),
    "P15": dict(quick=[("ErrorChain", "quick"), XW], thorough=[("ErrorChain", "thorough"), XWT]),
    "P16": dict(quick=[SQ, SE, TE, KQ, KN, VW, TW], thorough=[ST, SET, TET, TV, KT, KN, VWT, TWT, KWT], control=False),
    "P17": dict(quick=[SQ, SE, KQ, KN, VW, KW], thorough=[ST, SET, KT, KN, VWT, KWT]),
    "P18": dict(quick=[SQ, SE, SU, KQ, KN] + drv("kinds", "fields3", "variants", "convfield", "trans") + [VW, KW, DW],
                thorough=[ST, SET, SUT, KT, KN] + drv("kinds", "fields_thorough", "variants_thorough", "convfield", "convwhole", "trans", "generic") + [VWT, KWT, DWT]),
    "P19": dict(quick=[EF, EN, EE, TE, TV, KQ, KN, EW, TW], thorough=[EF, ENT, EPT, EET, TET, TV, KT, KN, EWT, TWT, KWT]),
    "P20": dict(quick=[SF, KQ, KN] + drv("kinds", "variants", "convtrans", "trans") + [DW],
                thorough=[SFT, KT, KN] + drv("kinds", "fields_thorough", "variants_thorough", "convfield", "convtrans", "convwhole", "trans", "generic") + [DWT]),
    "P21": dict(quick=[SF, EF, EN] + drv("kinds", "variants", "convtrans", "trans") + [EW, DW],
                thorough=[SFT, EF, ENT, EPT] + drv("kinds", "fields_thorough", "variants_thorough", "convfield", "convtrans", "convwhole", "trans", "generic") + [EWT, DWT]),
    "P22": dict(quick=[("SerdeStream", "quick"), AW], thorough=[("SerdeStream", "thorough"), ("SerdeStream", "three_thorough"), AWT]),
    "P23": dict(quick=[("Writer", "quick"), WW], thorough=[("Writer", "thorough"), WWT]),
    "P24": dict(quick=[EE, EN, EW], thorough=[EET, ENT, EPT, EWT]),
    "P25": dict(quick=drv("tags", "choice", "choice3") + [DW], thorough=drv("tags_thorough", "choice_thorough", "choice4_thorough") + [DWT]),
    "P26": dict(quick=drv("fields", "fields3", "variants", "kinds", "generic") + [DW],
                thorough=drv("fields_thorough", "fields4_thorough", "variants_thorough", "kinds", "generic") + [DWT]),
    "P27": dict(quick=drv("convfield", "convvariant", "convtrans", "convwhole") + [DW],
                thorough=drv("convfield_thorough", "convvariant", "convtrans", "convwhole") + [DWT]),
    "P28": dict(quick=drv("trans", "convtrans", "generic"), thorough=drv("trans", "convtrans", "generic")),
    "P29": dict(quick=[("Attrs", "pairs"), ("Attrs", "values")],
                thorough=[("Attrs", "pairs"), ("Attrs", "values"), ("Attrs", "triples_thorough"), ("Attrs", "mixed_thorough")]),
    "P30": dict(quick=[TE, TV, ("IdOrder", "quick"), TW], thorough=[TET, TV, ("IdOrder", "quick"), TWT]),
    "P31": dict(quick=[("Faults", "single"), ("Faults", "nest")] + drv("blame", "blametrans", "blamechoice") + [UW, GW],
                thorough=[("Faults", "single"), ("Faults", "nest_thorough"), ("Faults", "big_thorough")]
                + drv("blame_thorough", "blametrans", "blamechoice_thorough") + [UWT, GWT]),
    "P32": dict(on=dict(quick=[("s390x-unknown-linux-gnu", 64), ("i686-unknown-linux-gnu", 32)],
                        thorough=[("s390x-unknown-linux-gnu", 64), ("i686-unknown-linux-gnu", 32), ("powerpc-unknown-linux-gnu", 32)]),
                share=dict(quick=36, thorough=600), control=["P02", "P05", "P10", "P17"],
                quick=BASIC + SERIAL, thorough=BASIC + SERIAL + MORE,
                technique="TLC model checking of the TLA+ modules of 16 other properties, with the word size as a parameter; a sample of the "
                          "emitted behaviours is replayed into the crates interpreted for other targets",
                note="The state space is explored exhaustively within its bounds for each word size; the behaviours replayed on each target are "
                     "drawn from it by VERIF_SEED. Trusts TLC, the specification, and Miri's interpretation of the targets.",
                assumptions=["Miri interprets the targets faithfully."]),
    "P33": dict(memory=True, on=dict.fromkeys(["quick", "thorough"], [("x86_64-unknown-linux-gnu", 64)]), profiles=["dev", "release"],
                share=dict(quick=36, thorough=800), native=dict(quick=20000, thorough=1000000),
                quick=BASIC + SERIAL + MORE[:4], thorough=BASIC + SERIAL + MORE + [("P13", [("Objects", "large"), OW], False)],
                technique="TLC model checking of the TLA+ modules of 20 other properties; a sample of the emitted behaviours is replayed into "
                          "the crates under an accounting allocator, and a smaller one under Miri",
                note="The state space is explored exhaustively within its bounds; the behaviours replayed are drawn from it by VERIF_SEED. "
                     "Trusts TLC, the allocator of the harness, and Miri.",
                assumptions=["Miri notices what it documents; the rules for borrowing, which are not settled, are not judged."]),
}

ASSUMPTIONS = [
    "The specification reads X.690 and the documentation of the crates as DESIGN.md says.",
    "The target has 64-bit words (P32 says what is the same elsewhere).",
    "Behaviour between the sampled octets and sizes of the configurations is like that at the sampled ones.",
]
