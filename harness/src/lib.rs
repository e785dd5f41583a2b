//! Entry points for symbolic execution of the real slashing program.
//!
//! Compiled with `--cfg target_os="solana"`, i.e. the on-chain configuration:
//! every interaction with the runtime is an `extern "C"` syscall that the
//! symbolic executor models.  Only the public API of the crate is used.
#![allow(clippy::missing_safety_doc)]

use solana_program::{
    account_info::AccountInfo, hash::Hash, instruction::Instruction, program_error::ProgramError, pubkey::Pubkey, rent::Rent,
};
use solana_slashing_program::{
    duplicate_block_proof::DuplicateBlockProofData,
    error::SlashingError,
    get_violation_report_address, id,
    instruction::{
        close_violation_report, duplicate_block_proof, duplicate_block_proof_with_sigverify_and_prefund,
        DuplicateBlockProofInstructionData,
    },
    processor::process_instruction,
    state::{ProofType, SlashingProofData, ViolationReport},
};
use std::{alloc::{GlobalAlloc, Layout}, cell::RefCell, rc::Rc, slice::{from_raw_parts, from_raw_parts_mut}, str::FromStr};

extern "C" {
    fn v_alloc(size: usize, align: usize) -> *mut u8;
}
/// The on-chain heap: a bump allocator that never frees, with the default
/// `realloc`/`alloc_zeroed`, see `solana_program_entrypoint::BumpAllocator`
struct Heap;
unsafe impl GlobalAlloc for Heap {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        v_alloc(layout.size(), layout.align())
    }
    unsafe fn dealloc(&self, _: *mut u8, _: Layout) {}
}
#[global_allocator]
static HEAP: Heap = Heap;

/// One account as the loader lays it out in the input buffer, see
/// `solana_program_entrypoint::deserialize`:
/// dup(1) signer(1) writable(1) exec(1) orig_len(4) key(32) owner(32)
/// lamports(8) data_len(8) data(..)
#[repr(C)]
pub struct RawAccount {
    region: *mut u8,
    /// index of the account this one duplicates, or -1
    dup: i64,
}

unsafe fn account<'a>(region: *mut u8) -> AccountInfo<'a> {
    let data_len = *(region.add(80) as *const u64) as usize;
    *(region.add(4) as *mut u32) = data_len as u32;
    AccountInfo {
        key: &*(region.add(8) as *const Pubkey),
        is_signer: *region.add(1) != 0,
        is_writable: *region.add(2) != 0,
        lamports: Rc::new(RefCell::new(&mut *(region.add(72) as *mut u64))),
        data: Rc::new(RefCell::new(from_raw_parts_mut(region.add(88), data_len))),
        owner: &*(region.add(40) as *const Pubkey),
        executable: *region.add(3) != 0,
        rent_epoch: u64::MAX,
    }
}

#[no_mangle]
pub unsafe extern "C" fn v_process(raw: *const RawAccount, n: usize, program_id: *const Pubkey, data: *const u8, len: usize) -> u64 {
    let mut accounts: Vec<AccountInfo> = Vec::with_capacity(n);
    for i in 0..n {
        let r = &*raw.add(i);
        if r.dup >= 0 {
            let dup = accounts[r.dup as usize].clone();
            accounts.push(dup);
        } else {
            accounts.push(account(r.region));
        }
    }
    match process_instruction(&*program_id, &accounts, from_raw_parts(data, len)) {
        Ok(()) => 0,
        Err(e) => u64::from(e),
    }
}

#[repr(C)]
pub struct Slice {
    ptr: *const u8,
    len: usize,
}
impl Slice {
    fn of(s: &[u8]) -> Self {
        Slice { ptr: s.as_ptr(), len: s.len() }
    }
}

#[no_mangle]
pub unsafe extern "C" fn v_unpack(data: *const u8, len: usize, out: *mut Slice) -> u64 {
    match DuplicateBlockProofData::unpack_proof(from_raw_parts(data, len)) {
        Ok(p) => {
            *out = Slice::of(p.shred1);
            *out.add(1) = Slice::of(p.shred2);
            0
        }
        Err(e) => u64::from(solana_program::program_error::ProgramError::from(e)),
    }
}

/// out[0] = packed bytes, out[1].len = packed_len(), out[2].len = report packed_len
#[no_mangle]
pub unsafe extern "C" fn v_pack(s1: *const u8, l1: usize, s2: *const u8, l2: usize, out: *mut Slice) {
    let p = DuplicateBlockProofData { shred1: from_raw_parts(s1, l1), shred2: from_raw_parts(s2, l2) };
    (*out.add(1)).len = p.packed_len();
    (*out.add(2)).len = ViolationReport::packed_len(&p);
    let v = p.pack_proof();
    *out = Slice::of(&v);
    std::mem::forget(v);
}

#[repr(C)]
pub struct OutIx {
    program_id: [u8; 32],
    accounts: Slice, // AccountMeta: 34 bytes each (pubkey, is_signer, is_writable)
    data: Slice,
}
unsafe fn put_ix(ix: Instruction, out: *mut OutIx) {
    (*out).program_id = ix.program_id.to_bytes();
    let mut metas: Vec<u8> = Vec::with_capacity(34 * 8);
    for m in &ix.accounts {
        metas.extend_from_slice(m.pubkey.as_ref());
        metas.push(m.is_signer as u8);
        metas.push(m.is_writable as u8);
    }
    (*out).accounts = Slice { ptr: metas.as_ptr(), len: ix.accounts.len() };
    (*out).data = Slice::of(&ix.data);
    std::mem::forget(metas);
    std::mem::forget(ix);
}

#[no_mangle]
pub unsafe extern "C" fn v_ix_close(report: *const Pubkey, dest: *const Pubkey, out: *mut OutIx) {
    put_ix(close_violation_report(&*report, &*dest), out)
}

/// `fields` is the instruction data without its discriminant, field by field
unsafe fn ix_data(f: *const u8) -> DuplicateBlockProofInstructionData {
    let key = |o: usize| Pubkey::new_from_array(*(f.add(o) as *const [u8; 32]));
    let hash = |o: usize| Hash::new_from_array(*(f.add(o) as *const [u8; 32]));
    DuplicateBlockProofInstructionData {
        offset: u64::from_le_bytes(*(f as *const [u8; 8])).into(),
        slot: u64::from_le_bytes(*(f.add(8) as *const [u8; 8])).into(),
        node_pubkey: key(16),
        reporter: key(48),
        destination: key(80),
        shred_1_merkle_root: hash(112),
        shred_1_signature: *(f.add(144) as *const [u8; 64]),
        shred_2_merkle_root: hash(208),
        shred_2_signature: *(f.add(240) as *const [u8; 64]),
    }
}

#[no_mangle]
pub unsafe extern "C" fn v_ix_dup(proof: *const Pubkey, fields: *const u8, out: *mut OutIx) {
    put_ix(duplicate_block_proof(&*proof, &ix_data(fields)), out)
}

#[no_mangle]
pub unsafe extern "C" fn v_ix_full(proof: *const Pubkey, fields: *const u8, funder: *const Pubkey, has_funder: u64, out: *mut OutIx) {
    let f = if has_funder != 0 { Some(&*funder) } else { None };
    let rent = Rent { lamports_per_byte_year: 3480, exemption_threshold: 2.0, burn_percent: 50 };
    let [a, b, c] = duplicate_block_proof_with_sigverify_and_prefund(&*proof, &ix_data(fields), f, &rent);
    put_ix(a, out);
    put_ix(b, out.add(1));
    put_ix(c, out.add(2));
}

#[no_mangle]
pub unsafe extern "C" fn v_pda(node: *const Pubkey, slot: u64, ty: u8, out: *mut Pubkey) -> u64 {
    let (p, bump) = get_violation_report_address(&*node, slot, ProofType::from(ty));
    *out = p;
    bump as u64
}

/// out[0]=max proof account length, out[1]=max report size, out[2]=size_of::<ViolationReport>()
/// out[3]=offset of the sigverify data, out[4]=program id (as a pointer)
#[no_mangle]
pub unsafe extern "C" fn v_sizes(out: *mut u64) {
    *out = ProofType::DuplicateBlockProof.proof_account_length() as u64;
    *out.add(1) = ViolationReport::size::<DuplicateBlockProofData>() as u64;
    *out.add(2) = std::mem::size_of::<ViolationReport>() as u64;
    *out.add(3) = DuplicateBlockProofInstructionData::sigverify_data_offset() as u64;
    *(out.add(4) as *mut [u8; 32]) = id().to_bytes();
}

/// Reads a report the way a client does: fields through the public accessors
#[no_mangle]
pub unsafe extern "C" fn v_report(data: *const u8, out: *mut u64) {
    let d = from_raw_parts(data, std::mem::size_of::<ViolationReport>());
    let r: &ViolationReport = bytemuck::from_bytes(d);
    *out = r.epoch();
    *out.add(1) = r.slot();
    *out.add(2) = u8::from(r.violation_type()) as u64;
    *out.add(3) = ViolationReport::version(d) as u64;
    *(out.add(4) as *mut [u8; 32]) = r.pubkey.to_bytes();
    *(out.add(8) as *mut [u8; 32]) = r.reporter.to_bytes();
    *(out.add(12) as *mut [u8; 32]) = r.destination.to_bytes();
}

/// out[0] = the number of the violation type, out[1] = length of its name, out[2..] = its name
#[no_mangle]
pub unsafe extern "C" fn v_type(number: u8, out: *mut u64) {
    let t = ProofType::from(number);
    let name = t.violation_str().as_bytes();
    *out = u8::from(t) as u64;
    *out.add(1) = name.len() as u64;
    for (i, b) in name.iter().take(48).enumerate() {
        *(out.add(2) as *mut u8).add(i) = *b;
    }
}

/// out[0] = the number of the violation type of that name, or 256
#[no_mangle]
pub unsafe extern "C" fn v_type_parse(name: *const u8, len: usize, out: *mut u64) {
    let s = std::str::from_utf8_unchecked(from_raw_parts(name, len));
    *out = ProofType::from_str(s).map_or(256, |t| u8::from(t) as u64);
}

/// out[0] = what the runtime reports for the given error
#[no_mangle]
pub unsafe extern "C" fn v_error(i: usize, out: *mut u64) {
    use SlashingError::*;
    let all = [
        CloseViolationReportTooSoon, DestinationAddressIsReportAccount, DuplicateReport, ExceedsStatuteOfLimitations,
        InvalidDestinationAccount, InvalidShredVariant, InvalidMerkleShred, InvalidPayloadProof,
        InvalidErasureMetaConflict, InvalidInstruction, InvalidLastIndexConflict, InvalidViolationReportAcccount,
        InvalidShredVersion, InvalidSignatureVerification, LegacyShreds, MissingInstructionsSysvar,
        MissingSignatureVerification, MissingSystemProgramAccount, ProofBufferDeserializationError,
        ProofBufferTooSmall, ReportAccountNotPrefunded, ShredDeserializationError, ShredTypeMismatch,
        SignatureVerificationMismatch, SlotMismatch,
    ];
    *out = u64::from(ProgramError::from(all[i]));
}
