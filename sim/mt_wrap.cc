// std::string and std::map internals live in the C++ library, which is not instrumented:
// the library under test calls them through these wrappers (--wrap), which announce the
// memory they touch and pass their arguments on unchanged.
extern "C" {
void simRead(const void* a, unsigned long n, void* pc);
void simWrite(const void* a, unsigned long n, void* pc);
void simStr(const void* s, int write, void* pc);
void simOut(void* s, int write, void* pc);
void simIn(void* s, int write, void* pc);
void simIos(void* s, int write, void* pc);
void simSStr(void* s, int kind, int write, void* pc);
#define WRAPS(id, sym, BEFORE) void* real_##id(void*, void*, void*, void*, void*, void*) __asm__(sym); \
  void* wrap_##id(void*, void*, void*, void*, void*, void*) __asm__("__wrap_" sym); \
  void* wrap_##id(void* a, void* b, void* c, void* d, void* e, void* f) { void* pc = __builtin_return_address(0); BEFORE; return real_##id(a, b, c, d, e, f); }
#define STR "_ZNSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"
#define STRK "_ZNKSt7__cxx1112basic_stringIcSt11char_traitsIcESaIcEE"
WRAPS(s_assign, STR "9_M_assignERKS4_", simStr(b, 0, pc); simStr(a, 1, pc))
WRAPS(s_append, STR "9_M_appendEPKcm", simRead(b, (unsigned long)c, pc); simStr(a, 1, pc))
WRAPS(s_replace, STR "10_M_replaceEmmPKcm", simRead(d, (unsigned long)e, pc); simStr(a, 1, pc))
WRAPS(s_replaux, STR "14_M_replace_auxEmmmc", simStr(a, 1, pc))
WRAPS(s_mutate, STR "9_M_mutateEmmPKcm", simStr(a, 1, pc))
WRAPS(s_erase, STR "8_M_eraseEmm", simStr(a, 1, pc))
WRAPS(s_reserve, STR "7reserveEm", simStr(a, 1, pc))
WRAPS(s_opc, STR "aSEPKc", simStr(a, 1, pc))
WRAPS(s_swap, STR "4swapERS4_", simStr(a, 1, pc); simStr(b, 1, pc))
WRAPS(s_copy1, STR "C1ERKS4_", simStr(b, 0, pc))
WRAPS(s_copy2, STR "C2ERKS4_", simStr(b, 0, pc))
WRAPS(s_find1, STRK "4findEPKcmm", simStr(a, 0, pc))
WRAPS(s_find2, STRK "4findEcm", simStr(a, 0, pc))
WRAPS(s_cmp1, STRK "7compareEPKc", simStr(a, 0, pc))
WRAPS(s_cmp2, STRK "7compareERKS4_", simStr(a, 0, pc); simStr(b, 0, pc))
WRAPS(t_insert, "_ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_", simWrite(b, 32, pc); simWrite(c, 32, pc); simWrite(d, 32, pc))
WRAPS(t_erase, "_ZSt28_Rb_tree_rebalance_for_erasePSt18_Rb_tree_node_baseRS_", simWrite(a, 32, pc); simWrite(b, 32, pc))
WRAPS(t_inc, "_ZSt18_Rb_tree_incrementPSt18_Rb_tree_node_base", simRead(a, 32, pc))
WRAPS(t_inck, "_ZSt18_Rb_tree_incrementPKSt18_Rb_tree_node_base", simRead(a, 32, pc))
WRAPS(t_dec, "_ZSt18_Rb_tree_decrementPSt18_Rb_tree_node_base", simRead(a, 32, pc))
WRAPS(t_deck, "_ZSt18_Rb_tree_decrementPKSt18_Rb_tree_node_base", simRead(a, 32, pc))
// streams: the object stands for everything below it
WRAPS(o_ins, "_ZSt16__ostream_insertIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_PKS3_l", simOut(a, 1, pc); simRead(b, (unsigned long)c, pc))
WRAPS(o_cs, "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_PKc", simOut(a, 1, pc))
WRAPS(o_ch, "_ZStlsISt11char_traitsIcEERSt13basic_ostreamIcT_ES5_c", simOut(a, 1, pc))
WRAPS(o_st, "_ZStlsIcSt11char_traitsIcESaIcEERSt13basic_ostreamIT_T0_ES7_RKNSt7__cxx1112basic_stringIS4_S5_T1_EE", simOut(a, 1, pc); simStr(b, 0, pc))
WRAPS(o_int, "_ZNSolsEi", simOut(a, 1, pc))
WRAPS(o_l, "_ZNSo9_M_insertIlEERSoT_", simOut(a, 1, pc))
WRAPS(o_m, "_ZNSo9_M_insertImEERSoT_", simOut(a, 1, pc))
WRAPS(o_b, "_ZNSo9_M_insertIbEERSoT_", simOut(a, 1, pc))
WRAPS(o_x, "_ZNSo9_M_insertIxEERSoT_", simOut(a, 1, pc))
WRAPS(o_y, "_ZNSo9_M_insertIyEERSoT_", simOut(a, 1, pc))
WRAPS(o_put, "_ZNSo3putEc", simOut(a, 1, pc))
WRAPS(o_fl, "_ZNSo5flushEv", simOut(a, 1, pc))
WRAPS(o_wr, "_ZNSo5writeEPKcl", simOut(a, 1, pc); simRead(b, (unsigned long)c, pc))
WRAPS(o_endl, "_ZSt4endlIcSt11char_traitsIcEERSt13basic_ostreamIT_T0_ES6_", simOut(a, 1, pc))
WRAPS(i_int, "_ZNSirsERi", simIn(a, 1, pc))
WRAPS(i_d, "_ZNSi10_M_extractIdEERSiRT_", simIn(a, 1, pc))
WRAPS(i_f, "_ZNSi10_M_extractIfEERSiRT_", simIn(a, 1, pc))
WRAPS(i_l, "_ZNSi10_M_extractIlEERSiRT_", simIn(a, 1, pc))
WRAPS(i_m, "_ZNSi10_M_extractImEERSiRT_", simIn(a, 1, pc))
WRAPS(i_b, "_ZNSi10_M_extractIbEERSiRT_", simIn(a, 1, pc))
WRAPS(i_get, "_ZNSi3getEv", simIn(a, 1, pc))
WRAPS(i_peek, "_ZNSi4peekEv", simIn(a, 1, pc))
WRAPS(i_line, "_ZSt7getlineIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EES4_", simIn(a, 1, pc); simStr(b, 1, pc))
WRAPS(i_str, "_ZStrsIcSt11char_traitsIcESaIcEERSt13basic_istreamIT_T0_ES7_RNSt7__cxx1112basic_stringIS4_S5_T1_EE", simIn(a, 1, pc); simStr(b, 1, pc))
WRAPS(x_clear, "_ZNSt9basic_iosIcSt11char_traitsIcEE5clearESt12_Ios_Iostate", simIos(a, 1, pc))
WRAPS(ss_get0, "_ZNKSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strEv", simSStr(b, 0, 0, pc))
WRAPS(ss_set0, "_ZNSt7__cxx1118basic_stringstreamIcSt11char_traitsIcESaIcEE3strERKNS_12basic_stringIcS2_S3_EE", simSStr(a, 0, 1, pc); simStr(b, 0, pc))
WRAPS(ss_get1, "_ZNKSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strEv", simSStr(b, 1, 0, pc))
WRAPS(ss_set1, "_ZNSt7__cxx1119basic_ostringstreamIcSt11char_traitsIcESaIcEE3strERKNS_12basic_stringIcS2_S3_EE", simSStr(a, 1, 1, pc); simStr(b, 0, pc))
WRAPS(ss_get2, "_ZNKSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEE3strEv", simSStr(b, 2, 0, pc))
WRAPS(ss_set2, "_ZNSt7__cxx1119basic_istringstreamIcSt11char_traitsIcESaIcEE3strERKNS_12basic_stringIcS2_S3_EE", simSStr(a, 2, 1, pc); simStr(b, 0, pc))
// numbers travel in other registers
#define WRAPD(id, sym) void* real_##id(void*, double) __asm__(sym); void* wrap_##id(void*, double) __asm__("__wrap_" sym); \
  void* wrap_##id(void* a, double x) { simOut(a, 1, __builtin_return_address(0)); return real_##id(a, x); }
WRAPD(o_dbl, "_ZNSo9_M_insertIdEERSoT_")
}
