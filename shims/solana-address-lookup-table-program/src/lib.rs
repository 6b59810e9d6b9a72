//! Offline stand-in: ids, metadata size and the extend instruction.
solana_program::declare_id!("AddressLookupTab1e1111111111111111111111111");
pub mod state {
    use solana_program::{instruction::InstructionError, pubkey::Pubkey};
    use std::borrow::Cow;
    pub struct AddressLookupTable<'a> {
        pub addresses: Cow<'a, [Pubkey]>,
    }
    impl<'a> AddressLookupTable<'a> {
        /// data: u32 state tag (1 = LookupTable), metadata up to 56 bytes, then 32-byte addresses
        pub fn deserialize(data: &'a [u8]) -> Result<AddressLookupTable<'a>, InstructionError> {
            if data.len() < LOOKUP_TABLE_META_SIZE {
                return Err(InstructionError::InvalidAccountData);
            }
            if data[0..4] != [1, 0, 0, 0] {
                return Err(InstructionError::UninitializedAccount);
            }
            let raw = &data[LOOKUP_TABLE_META_SIZE..];
            if raw.len() % 32 != 0 {
                return Err(InstructionError::InvalidAccountData);
            }
            let addresses: Vec<Pubkey> =
                raw.chunks(32).map(|c| Pubkey::try_from(c).unwrap()).collect();
            Ok(AddressLookupTable { addresses: addresses.into() })
        }
    }
    pub const LOOKUP_TABLE_META_SIZE: usize = 56;
    pub const LOOKUP_TABLE_MAX_ADDRESSES: usize = 256;
}
pub mod instruction {
    use serde::{Deserialize, Serialize};
    use solana_program::{
        clock::Slot,
        instruction::{AccountMeta, Instruction},
        pubkey::Pubkey,
        system_program,
    };
    #[derive(Serialize, Deserialize, Debug, PartialEq, Eq, Clone)]
    pub enum ProgramInstruction {
        CreateLookupTable { recent_slot: Slot, bump_seed: u8 },
        FreezeLookupTable,
        ExtendLookupTable { new_addresses: Vec<Pubkey> },
        DeactivateLookupTable,
        CloseLookupTable,
    }
    pub fn create_lookup_table(
        authority_address: Pubkey,
        payer_address: Pubkey,
        recent_slot: Slot,
    ) -> (Instruction, Pubkey) {
        let (addr, bump_seed) = Pubkey::find_program_address(
            &[authority_address.as_ref(), &recent_slot.to_le_bytes()],
            &crate::id(),
        );
        (
            Instruction::new_with_bincode(
                crate::id(),
                &ProgramInstruction::CreateLookupTable { recent_slot, bump_seed },
                vec![
                    AccountMeta::new(addr, false),
                    AccountMeta::new_readonly(authority_address, true),
                    AccountMeta::new(payer_address, true),
                    AccountMeta::new_readonly(system_program::id(), false),
                ],
            ),
            addr,
        )
    }
    pub fn extend_lookup_table(
        lookup_table_address: Pubkey,
        authority_address: Pubkey,
        payer_address: Option<Pubkey>,
        new_addresses: Vec<Pubkey>,
    ) -> Instruction {
        let mut accounts = vec![
            AccountMeta::new(lookup_table_address, false),
            AccountMeta::new_readonly(authority_address, true),
        ];
        if let Some(p) = payer_address {
            accounts.extend([
                AccountMeta::new(p, true),
                AccountMeta::new_readonly(system_program::id(), false),
            ]);
        }
        Instruction::new_with_bincode(
            crate::id(),
            &ProgramInstruction::ExtendLookupTable { new_addresses },
            accounts,
        )
    }
}
