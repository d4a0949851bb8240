mod gen;
pub use gen::entries;
