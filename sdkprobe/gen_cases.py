"""Writes src/macro_cases.rs: request structs with every subset of the accounts predeclared."""
F = {
    "program_identity": '    /// CHECK: identity\n    #[account(seeds = [b"identity"], bump)]\n    pub program_identity: UncheckedAccount<\'info>,\n',
    "vrf_program": "    pub vrf_program: Program<'info, VrfProgram>,\n",
    "slot_hashes": "    /// CHECK: slot hashes\n    #[account(address = SLOT_HASHES)]\n    pub slot_hashes: UncheckedAccount<'info>,\n",
    "system_program": "    pub system_program: Program<'info, System>,\n",
}
NAMES = list(F)
out = ["// Generated by gen_cases.py; included by the anchor probes.\n"]
calls = []


def case(name, pre, head="", mid="", tail="", order=None, extra=()):
    fields = "".join(F[n] for n in (order or pre))
    out.append('''
#[vrf]
#[derive(Accounts)]
%spub struct %s<'info> {
    #[account(mut)]
    pub payer: Signer<'info>,
%s    /// CHECK: The oracle queue
    #[account(mut)]
    pub oracle_queue: UncheckedAccount<'info>,
%s%s}
''' % (head, name, mid, fields, tail))
    low = "__client_accounts_" + "".join(("_" + c.lower() if c.isupper() and i else c.lower()) for i, c in enumerate(name))
    sets = "".join(", %s: k.%s" % (e, e) for e in extra)
    calls.append("    macro_case!(o, r, %s, %s::%s, \"%s\"%s);\n" % (name, low, name, "+".join(pre) or "none", "".join(", " + e for e in extra)))


for m in range(16):
    case("CaseSub%c" % (ord("a") + m), [n for i, n in enumerate(NAMES) if m >> i & 1])
case("CaseRev", NAMES, order=NAMES[::-1])
case("CaseArg", ["slot_hashes"], head="#[instruction(seed: u8)]\n")
case("CaseMid", ["vrf_program"], mid="    /// CHECK: another account of the program\n    #[account(mut)]\n    pub other: UncheckedAccount<'info>,\n", extra=("other",))
case("CaseTail", [], tail="    /// CHECK: another account of the program\n    pub other: UncheckedAccount<'info>,\n", extra=("other",))
out.append("\npub fn all_cases(o: &mut String, r: &mut Rng) {\n" + "".join(calls) + "}\n")
open("src/macro_cases.rs", "w").write("".join(out))
