// Generated by gen_cases.py; included by the anchor probes.

#[vrf]
#[derive(Accounts)]
pub struct CaseSuba<'info> {
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: The oracle queue
    #[account(mut)]
    pub oracle_queue: UncheckedAccount<'info>,
}

#[vrf]
#[derive(Accounts)]
pub struct CaseSubb<'info> {
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: The oracle queue
    #[account(mut)]
    pub oracle_queue: UncheckedAccount<'info>,
    /// CHECK: identity
    #[account(seeds = [b"identity"], bump)]
    pub program_identity: UncheckedAccount<'info>,
}

#[vrf]
#[derive(Accounts)]
pub struct CaseSubc<'info> {
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: The oracle queue
    #[account(mut)]
    pub oracle_queue: UncheckedAccount<'info>,
    pub vrf_program: Program<'info, VrfProgram>,
}

#[vrf]
#[derive(Accounts)]
pub struct CaseSubd<'info> {
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: The oracle queue
    #[account(mut)]
    pub oracle_queue: UncheckedAccount<'info>,
    /// CHECK: identity
    #[account(seeds = [b"identity"], bump)]
    pub program_identity: UncheckedAccount<'info>,
    pub vrf_program: Program<'info, VrfProgram>,
}

#[vrf]
#[derive(Accounts)]
pub struct CaseSube<'info> {
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: The oracle queue
    #[account(mut)]
    pub oracle_queue: UncheckedAccount<'info>,
    /// CHECK: slot hashes
    #[account(address = SLOT_HASHES)]
    pub slot_hashes: UncheckedAccount<'info>,
}

#[vrf]
#[derive(Accounts)]
pub struct CaseSubf<'info> {
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: The oracle queue
    #[account(mut)]
    pub oracle_queue: UncheckedAccount<'info>,
    /// CHECK: identity
    #[account(seeds = [b"identity"], bump)]
    pub program_identity: UncheckedAccount<'info>,
    /// CHECK: slot hashes
    #[account(address = SLOT_HASHES)]
    pub slot_hashes: UncheckedAccount<'info>,
}

#[vrf]
#[derive(Accounts)]
pub struct CaseSubg<'info> {
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: The oracle queue
    #[account(mut)]
    pub oracle_queue: UncheckedAccount<'info>,
    pub vrf_program: Program<'info, VrfProgram>,
    /// CHECK: slot hashes
    #[account(address = SLOT_HASHES)]
    pub slot_hashes: UncheckedAccount<'info>,
}

#[vrf]
#[derive(Accounts)]
pub struct CaseSubh<'info> {
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: The oracle queue
    #[account(mut)]
    pub oracle_queue: UncheckedAccount<'info>,
    /// CHECK: identity
    #[account(seeds = [b"identity"], bump)]
    pub program_identity: UncheckedAccount<'info>,
    pub vrf_program: Program<'info, VrfProgram>,
    /// CHECK: slot hashes
    #[account(address = SLOT_HASHES)]
    pub slot_hashes: UncheckedAccount<'info>,
}

#[vrf]
#[derive(Accounts)]
pub struct CaseSubi<'info> {
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: The oracle queue
    #[account(mut)]
    pub oracle_queue: UncheckedAccount<'info>,
    pub system_program: Program<'info, System>,
}

#[vrf]
#[derive(Accounts)]
pub struct CaseSubj<'info> {
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: The oracle queue
    #[account(mut)]
    pub oracle_queue: UncheckedAccount<'info>,
    /// CHECK: identity
    #[account(seeds = [b"identity"], bump)]
    pub program_identity: UncheckedAccount<'info>,
    pub system_program: Program<'info, System>,
}

#[vrf]
#[derive(Accounts)]
pub struct CaseSubk<'info> {
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: The oracle queue
    #[account(mut)]
    pub oracle_queue: UncheckedAccount<'info>,
    pub vrf_program: Program<'info, VrfProgram>,
    pub system_program: Program<'info, System>,
}

#[vrf]
#[derive(Accounts)]
pub struct CaseSubl<'info> {
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: The oracle queue
    #[account(mut)]
    pub oracle_queue: UncheckedAccount<'info>,
    /// CHECK: identity
    #[account(seeds = [b"identity"], bump)]
    pub program_identity: UncheckedAccount<'info>,
    pub vrf_program: Program<'info, VrfProgram>,
    pub system_program: Program<'info, System>,
}

#[vrf]
#[derive(Accounts)]
pub struct CaseSubm<'info> {
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: The oracle queue
    #[account(mut)]
    pub oracle_queue: UncheckedAccount<'info>,
    /// CHECK: slot hashes
    #[account(address = SLOT_HASHES)]
    pub slot_hashes: UncheckedAccount<'info>,
    pub system_program: Program<'info, System>,
}

#[vrf]
#[derive(Accounts)]
pub struct CaseSubn<'info> {
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: The oracle queue
    #[account(mut)]
    pub oracle_queue: UncheckedAccount<'info>,
    /// CHECK: identity
    #[account(seeds = [b"identity"], bump)]
    pub program_identity: UncheckedAccount<'info>,
    /// CHECK: slot hashes
    #[account(address = SLOT_HASHES)]
    pub slot_hashes: UncheckedAccount<'info>,
    pub system_program: Program<'info, System>,
}

#[vrf]
#[derive(Accounts)]
pub struct CaseSubo<'info> {
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: The oracle queue
    #[account(mut)]
    pub oracle_queue: UncheckedAccount<'info>,
    pub vrf_program: Program<'info, VrfProgram>,
    /// CHECK: slot hashes
    #[account(address = SLOT_HASHES)]
    pub slot_hashes: UncheckedAccount<'info>,
    pub system_program: Program<'info, System>,
}

#[vrf]
#[derive(Accounts)]
pub struct CaseSubp<'info> {
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: The oracle queue
    #[account(mut)]
    pub oracle_queue: UncheckedAccount<'info>,
    /// CHECK: identity
    #[account(seeds = [b"identity"], bump)]
    pub program_identity: UncheckedAccount<'info>,
    pub vrf_program: Program<'info, VrfProgram>,
    /// CHECK: slot hashes
    #[account(address = SLOT_HASHES)]
    pub slot_hashes: UncheckedAccount<'info>,
    pub system_program: Program<'info, System>,
}

#[vrf]
#[derive(Accounts)]
pub struct CaseRev<'info> {
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: The oracle queue
    #[account(mut)]
    pub oracle_queue: UncheckedAccount<'info>,
    pub system_program: Program<'info, System>,
    /// CHECK: slot hashes
    #[account(address = SLOT_HASHES)]
    pub slot_hashes: UncheckedAccount<'info>,
    pub vrf_program: Program<'info, VrfProgram>,
    /// CHECK: identity
    #[account(seeds = [b"identity"], bump)]
    pub program_identity: UncheckedAccount<'info>,
}

#[vrf]
#[derive(Accounts)]
#[instruction(seed: u8)]
pub struct CaseArg<'info> {
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: The oracle queue
    #[account(mut)]
    pub oracle_queue: UncheckedAccount<'info>,
    /// CHECK: slot hashes
    #[account(address = SLOT_HASHES)]
    pub slot_hashes: UncheckedAccount<'info>,
}

#[vrf]
#[derive(Accounts)]
pub struct CaseMid<'info> {
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: another account of the program
    #[account(mut)]
    pub other: UncheckedAccount<'info>,
    /// CHECK: The oracle queue
    #[account(mut)]
    pub oracle_queue: UncheckedAccount<'info>,
    pub vrf_program: Program<'info, VrfProgram>,
}

#[vrf]
#[derive(Accounts)]
pub struct CaseTail<'info> {
    #[account(mut)]
    pub payer: Signer<'info>,
    /// CHECK: The oracle queue
    #[account(mut)]
    pub oracle_queue: UncheckedAccount<'info>,
    /// CHECK: another account of the program
    pub other: UncheckedAccount<'info>,
}

pub fn all_cases(o: &mut String, r: &mut Rng) {
    macro_case!(o, r, CaseSuba, __client_accounts_case_suba::CaseSuba, "none");
    macro_case!(o, r, CaseSubb, __client_accounts_case_subb::CaseSubb, "program_identity");
    macro_case!(o, r, CaseSubc, __client_accounts_case_subc::CaseSubc, "vrf_program");
    macro_case!(o, r, CaseSubd, __client_accounts_case_subd::CaseSubd, "program_identity+vrf_program");
    macro_case!(o, r, CaseSube, __client_accounts_case_sube::CaseSube, "slot_hashes");
    macro_case!(o, r, CaseSubf, __client_accounts_case_subf::CaseSubf, "program_identity+slot_hashes");
    macro_case!(o, r, CaseSubg, __client_accounts_case_subg::CaseSubg, "vrf_program+slot_hashes");
    macro_case!(o, r, CaseSubh, __client_accounts_case_subh::CaseSubh, "program_identity+vrf_program+slot_hashes");
    macro_case!(o, r, CaseSubi, __client_accounts_case_subi::CaseSubi, "system_program");
    macro_case!(o, r, CaseSubj, __client_accounts_case_subj::CaseSubj, "program_identity+system_program");
    macro_case!(o, r, CaseSubk, __client_accounts_case_subk::CaseSubk, "vrf_program+system_program");
    macro_case!(o, r, CaseSubl, __client_accounts_case_subl::CaseSubl, "program_identity+vrf_program+system_program");
    macro_case!(o, r, CaseSubm, __client_accounts_case_subm::CaseSubm, "slot_hashes+system_program");
    macro_case!(o, r, CaseSubn, __client_accounts_case_subn::CaseSubn, "program_identity+slot_hashes+system_program");
    macro_case!(o, r, CaseSubo, __client_accounts_case_subo::CaseSubo, "vrf_program+slot_hashes+system_program");
    macro_case!(o, r, CaseSubp, __client_accounts_case_subp::CaseSubp, "program_identity+vrf_program+slot_hashes+system_program");
    macro_case!(o, r, CaseRev, __client_accounts_case_rev::CaseRev, "program_identity+vrf_program+slot_hashes+system_program");
    macro_case!(o, r, CaseArg, __client_accounts_case_arg::CaseArg, "slot_hashes");
    macro_case!(o, r, CaseMid, __client_accounts_case_mid::CaseMid, "vrf_program", other);
    macro_case!(o, r, CaseTail, __client_accounts_case_tail::CaseTail, "none", other);
}
