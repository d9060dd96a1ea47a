mod req;
use req::*;
vp::harnesses!(h_req_fields, h_req_conditions, h_req_raw, h_req_sat, h_req_sat_words, h_req_sat_long, h_req_sat_terms, h_con_compose, h_req_where, h_req_env, h_preq_print, h_preq, h_preq_exclude);
