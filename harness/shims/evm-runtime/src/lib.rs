//! Stand-in: only what /repo names.
