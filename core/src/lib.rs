pub mod enc;
pub mod engine;
pub mod files;
pub mod io;
pub mod model;
pub mod view;
pub mod laws;
