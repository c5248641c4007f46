pub mod assertions;
pub mod automata;
pub mod circuits;
pub mod extract;
pub mod shipped;
pub mod interfaces;
pub mod coherence;
