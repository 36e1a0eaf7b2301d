pub mod sym;
pub mod props;
