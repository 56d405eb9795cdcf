//! Stand-in for the ALP library, which is not available here: a codec that copies.
pub const VECTOR_SIZE: usize = 1024;

pub fn compress_double(input: &[f64], buffer: &mut Vec<u8>) {
    buffer.clear();
    for v in input {
        buffer.extend_from_slice(&v.to_le_bytes());
    }
}

/// # Safety
/// `input` holds at least `number_of_records` records.
pub unsafe fn decompress_double(input: &[u8], number_of_records: usize, buffer: &mut Vec<f64>) {
    buffer.clear();
    buffer.extend(input.chunks_exact(8).take(number_of_records).map(|b| f64::from_le_bytes(b.try_into().unwrap())));
}
