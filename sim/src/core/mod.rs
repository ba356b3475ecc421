pub mod alloc;
pub mod ctx;
pub mod json;
pub mod runner;
pub mod seam;
pub mod shrink;
pub mod src;
