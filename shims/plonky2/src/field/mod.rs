pub mod extension; pub mod goldilocks_field; pub mod ops; pub mod packable; pub mod packed; pub mod polynomial; pub mod sym; pub mod types; pub mod zero_poly_coset;
