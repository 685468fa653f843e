mod gadgets;
mod sem;
mod valid;
mod build;
