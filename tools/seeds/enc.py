SEEDS = []


def S(**k):
    SEEDS.append(k)


S(id='message-bytes-stop-at-three', prop='T02',
  needs='a sum-check message with four values or more',
  breaks='the bytes absorbed for a round message hold its length and its first three values only, so the challenge does not bind the others',
  edits=[('src/subroutines/poly_iop/structs.rs', '''#[derive(Clone, Debug, Default, PartialEq, Eq, CanonicalSerialize)]
pub struct IOPProverMessage<F: PrimeField> {
    pub(crate) evaluations: Vec<F>,
}''', '''#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct IOPProverMessage<F: PrimeField> {
    pub(crate) evaluations: Vec<F>,
}

impl<F: PrimeField> CanonicalSerialize for IOPProverMessage<F> {
    fn serialize_with_mode<W: ark_serialize::Write>(
        &self,
        mut writer: W,
        compress: ark_serialize::Compress,
    ) -> Result<(), ark_serialize::SerializationError> {
        (self.evaluations.len() as u64).serialize_with_mode(&mut writer, compress)?;
        for value in self.evaluations.iter().take(3) {
            value.serialize_with_mode(&mut writer, compress)?;
        }
        Ok(())
    }

    fn serialized_size(&self, compress: ark_serialize::Compress) -> usize {
        self.evaluations.serialized_size(compress)
    }
}''')],
  where='src/subroutines/poly_iop/mod.rs', kit=False, demo='''
    use super::structs::IOPProverMessage;
    use crate::transcript::IOPTranscript;
    use ark_bls12_381::Fr;
    #[test]
    fn message() {
        let draw = |last: u64| {
            let mut t = IOPTranscript::<Fr>::new(b"t");
            let m = IOPProverMessage { evaluations: vec![Fr::from(1u64), Fr::from(2u64), Fr::from(3u64), Fr::from(last)] };
            t.append_serializable_element(b"m", &m).unwrap();
            t.get_and_append_challenge(b"c").unwrap()
        };
        assert!(draw(4) != draw(5));
    }
''')
