pub mod read;
pub mod edit;
pub mod damage;
pub mod save;
pub mod conc;
pub mod cost;
pub mod res;
pub mod reach;
pub mod place;
pub mod layout;
