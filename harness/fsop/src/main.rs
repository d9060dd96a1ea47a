mod ops;
mod tree;
use ops::*;
vp::harnesses!(h_fs_copy, h_fs_move, h_fs_remove, h_fs_names);
