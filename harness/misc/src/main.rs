mod filt;
mod graph;
mod order;
mod util;
use filt::*;
use graph::*;
use order::*;
use util::*;
vp::harnesses!(h_flt_glob, h_flt_rules, h_flt_time, h_flt_version, h_ord_one, h_ord_family, h_ord_list, h_graph, h_graph_req, h_util_base26, h_util_links, h_util_text, h_util_duration);
