S_UNROLL=[dict(unroll_inner=5,depth=2,backdepth=1),dict(depth=3,backdepth=1)]
PROPS={}
PROPS['C01']=dict(src='utf.cpp',strategies=S_UNROLL,
 functions=['to_utf16(wchar_t*,int,str_iter&)','to_utf16(wchar_t*,int,const char*)','to_utf8(char*,int,wstr_iter&)','to_utf8(char*,int,const wchar_t*)','builder<char>','builder<wchar_t>','str_iter_impl<char>::next','str_iter_impl<wchar_t>::next'],
 assumptions=['text and buffers of at most 2^20 elements'],
 units=[dict(fn='H_to_utf16',what='conversion equals the Unicode reference, for every well-formed text and every buffer size',weight=5),
  dict(fn='H_count_utf16'),dict(fn='H_to_utf8',weight=5),dict(fn='H_count_utf8'),dict(fn='H_lemma_inverse',cfg=dict(unroll=8))])
PROPS['C02']=dict(src='utf.cpp',strategies=[dict(depth=2,backdepth=1)],functions=['str_iter_impl<char>::next/peek/more','str_iter_impl<wchar_t>::next/peek/more'],
 units=[dict(fn='H_iter8'),dict(fn='H_iter8_exact',cfg=dict(unroll_all=True,unroll=5)),dict(fn='H_iter16'),dict(fn='H_next_contract',cfg=dict(unroll_all=True,unroll=5,open=True)),dict(fn='H_lemma_decode',cfg=dict(open=True))])
PROPS['C03']=dict(src='strbuf.cpp',strategies=[dict(depth=3,backdepth=2,entrydepth=1,prune=1)],
 functions=['str_impl<T>::reserve/concat/concat_no_truncate/truncate/trim/clear/empty/length/operator[]'],
 units=[dict(fn=f+w,cfg=dict(heap_esize=2 if w=='16' else 1)) for f in('H_concat','H_concat_grow','H_concat_nt','H_reserve','H_misc') for w in('8','16')]+[dict(fn='H_trim')])
LIBC={a:'dv_'+a for a in('strchr','wcschr','strrchr','iswalpha','isalpha','isdigit','isspace','tolower','toupper','CharLowerW')}
NEXT={'_ZN13str_iter_implIcE4nextEv':'stub_next8'}
PROPS['C04']=dict(src='tok.cpp',strategies=[dict(unroll_inner=5,depth=2,backdepth=1)],cfg=dict(replace={**LIBC,**NEXT},replace_strict=False),native_replace=LIBC,
 functions=['str_tokeniser_impl<char>::next/peek_delims/add_quote_pair/get_right_quote/get_pointer'],
 units=[dict(fn='H_next'),dict(fn='H_next_quotes'),dict(fn='H_quotes',cfg=dict(unroll_all=True,prune=2)),dict(fn='H_peek')])
CMPR=dict(LIBC); CMPR['_Z16normalize_accenti']='stub_normalize_accent'
PROPS['C05']=dict(src='cmp.cpp',strategies=[dict(depth=2,backdepth=1,spec_consts=[1,2],prune=1)],cfg=dict(replace={**CMPR,**NEXT},replace_strict=False),native_replace=CMPR,
 functions=['str_compare','str_compare_impl<char,...>','str_compare_scope'],
 units=[dict(fn='H_cmp_'+x) for x in('exact','exact_lcd','exact_fz','exact_slash','caseless','caseless_lcd','relaxed','relaxed_lcd')])

PATHR={'_ZN4pathL10past_driveIcEEPKT_S3_':'stub_drive8','_ZN4pathL10past_driveIwEEPKT_S3_':'stub_drive16',
 '_ZN8str_implIcE6concatEPKci':'stub_concat8','_ZN8str_implIwE6concatEPKwi':'stub_concat16'}
UNCR={'_ZN4path6is_uncEPKcPS1_':'stub_unc8','_ZN4path6is_uncEPKwPS1_':'stub_unc16'}
PATHO=dict(replace=LIBC,open=True)
PATHU=dict(replace={**LIBC,**UNCR},open=['spec_o_drive8','spec_o_drive16'])
PATHR['_ZN8str_implIcE6formatEPKcz']='stub_format'
PATHD=dict(replace={**LIBC,**PATHR,'_ZN4pathL17get_directory_endEPKc':'stub_dirend'})
PROPS['C06']=dict(src='path.cpp',strategies=[dict(depth=2,backdepth=1)],cfg=dict(replace={**LIBC,**PATHR},replace_strict=False),native_replace={**LIBC,'_ZN8str_implIcE6formatEPKcz':'stub_format'},
 functions=['path::is_unc<char>','path::is_unc<wchar_t>','path::past_drive','path::past_ssqs','path::get_drive','path::get_directory','path::get_directory_end','path::get_name','path::get_base_name','path::get_extension','path::is_rooted','path::is_root','path::is_unix_hidden','path::next_element'],
 units=[dict(fn='H_unc8',cfg=PATHO),dict(fn='H_unc16',cfg=PATHO),dict(fn='H_drive8',cfg=PATHU),dict(fn='H_drive16',cfg=PATHU)]+[dict(fn='H_'+x,cfg=PATHD) for x in('dir','dir_inplace')]+[dict(fn='H_'+x) for x in('getdrive','name8','name16','dirend','ext','root','hidden','element')]+[dict(fn='H_base',cfg=dict(replace={**LIBC,**PATHR,'_ZN4path8get_nameEPKcR8str_base':'stub_getname'}))])
PATHE={**LIBC,**PATHR,**UNCR}
LENR={'_ZNK8str_implIcE6lengthEv':'stub_length8','_ZN8str_implIcE8truncateEj':'stub_truncate8','_ZNK8str_implIwE6lengthEv':'stub_length16','_ZN8str_implIwE8truncateEj':'stub_truncate16'}
PATHL=dict(replace={**PATHE,**LENR})
PROPS['C07']=dict(src='path.cpp',strategies=[dict(depth=2,backdepth=1)],cfg=dict(replace=PATHE,replace_strict=False),native_replace=LIBC,
 functions=['path::append','path::join','path::to_parent','path::maybe_strip_last_separator','path::normalise_separators'],
 units=[dict(fn='H_'+x) for x in('append','append_u','sepnorm')]+[dict(fn='H_'+x,cfg=PATHL) for x in('strip8','strip16')]+[dict(fn='H_parent',bounded='paths of up to 250 bytes, coverage-guided search')]+[dict(fn='H_join',cfg=dict(replace={**PATHE,'_ZN4path6appendER8str_basePKc':'stub_append'}))])
BUFR={'_ZN8str_implIcE5clearEv':'stub_bclear','_ZN8str_implIcE6concatEPKci':'stub_bcat','_ZNK8str_implIcE6lengthEv':'stub_blen'}
STEPR={'_ZN11ecma48_iter%d%sEi'%(len('next_'+x),'next_'+x):'stub_'+x for x in('char','char_str','cmd_str','csi_f','csi_p','esc','esc_st','unknown')}
PROPS['C08']=dict(src='term.cpp',strategies=[dict(depth=2,backdepth=1)],cfg=dict(replace={**LIBC,**NEXT},replace_strict=False),native_replace=LIBC,
 functions=['ecma48_iter::next','ecma48_iter::next_*','ecma48_code::decode_csi','ecma48_code::get_c1_str'],
 units=[dict(fn='H_seg',cfg=dict(replace={**LIBC,**NEXT,**BUFR,**STEPR},nolo=True,guards=[(32,1),(8,0)],cand=r'^spec_|not in|same obj|^&?[^ ]+ == &| or |^[^\[]*(.s.)? <=u (&|in\b|in32|cmp)'))]+[dict(fn='H_lemma_step',cfg=dict(open=True))]+[dict(fn='H_step_'+x,cfg=dict(open=['spec_o_step','spec_o_nest','spec_o_kind'],unroll_all=True,unroll=4)) for x in('unknown','char','esc','esc_st','csi_p','csi_f','cmd_str','char_str')]+[dict(fn='H_csi',strategies=[dict(depth=4,backdepth=1)],cfg=dict(nolo=True,spec_consts=[0],cand=r'^spec_|^[^\[]*(.s.)? <=u (&|in\b|in32|cmp)|not in|same obj')),dict(fn='H_c1_str',cfg=dict(replace={**LIBC,**NEXT,**BUFR}),strategies=[dict(depth=4,backdepth=1)]),dict(fn='H_strip')])
PROPS['C09']=dict(src='width.cpp',strategies=[dict(depth=2,backdepth=1)],cfg=dict(replace={**LIBC,**NEXT},replace_strict=False),native_replace=LIBC,
 functions=['wcwidth_iter::next','wcwidth_iter::consume_emoji_sequence','wcwidth_iter::unnext/reset_pointer/more/length','clink_wcswidth','clink_wcswidth_expandctrl'],
 units=[dict(fn='H_run',strategies=[dict(depth=3,backdepth=1)])]+[dict(fn=f,cfg=dict(replace={**LIBC,**{k:'stub_next8c' for k in NEXT},'_ZN12wcwidth_iter4nextEv':'stub_wnext'})) for f in('H_cells','H_cells_expand')])
PROPS['C10']=dict(src='attr.cpp',strategies=[dict()],cfg=dict(),
 functions=['attributes::merge/diff/set_*/reset_*/get_*/operator=='],
 units=[dict(fn=f) for f in('H_merge','H_diff','H_set','H_equal')])
CMDR={'_Z7str_chrPKci':'stub_chr','_ZNK12setting_implIbE3getEv':'stub_setting','_ZL13is_alias_wordR13str_iter_implIcEP11alias_cache':'stub_alias','_ZN9cmd_state5clearEb':'stub_clear','_ZN9cmd_state4testEi15tokeniser_state':'stub_test'}
NEXTW={k:'stub_next8w' for k in NEXT}
QUERYR={'_ZN11alias_cache9get_aliasEPKcR8str_base':'stub_query','_ZN2os9get_aliasEPKcR8str_base':'stub_query_os'}
CMDN={k:v for k,v in CMDR.items() if v!='stub_alias'}
PROPS['C11']=dict(src='cmdtok.cpp',strategies=[dict(depth=2,backdepth=1)],cfg=dict(replace={**LIBC,**NEXTW,**CMDR},replace_strict=False),native_replace={**LIBC,**CMDN,**QUERYR},
 functions=['is_alias_word','cmd_command_tokeniser::next','skip_leading_parens','trim_trailing_parens','get_input_type','c_transition','cmd_tokeniser_impl::get_opening_quote/get_closing_quote'],
 units=[dict(fn='H_trim'),dict(fn='H_alias',cfg=dict(replace={**LIBC,**NEXTW,**CMDN,**QUERYR,'_ZN8str_implIcE6concatEPKci':'stub_wcat','_ZNK8str_implIcE6lengthEv':'stub_wlen'})),dict(fn='H_parens'),dict(fn='H_lemma_wf'),dict(fn='H_table',cfg=dict(open=True)),dict(fn='H_command',strategies=[dict(depth=1,backdepth=1)],cfg=dict(nolo=True,depth=1,cand=r'^spec_wf|^spec_walk\(=,&phi.p0/e,=,phi.i32_0,phi.i8_2,phi.i8_1,phi.i8_0,G|^spec_rest|^spec_word|same obj|not in|^[^\[]*(.s.)? <=u (&|in\b)|>=u in|>=u entry|in32|phi.i32_0 <=?u cmp',replace={**LIBC,**NEXTW,**CMDR,'_Z19skip_leading_parensR13str_iter_implIcERbP11alias_cache':'stub_parens','_Z20trim_trailing_parensPKcjji':'stub_trim'}))])
