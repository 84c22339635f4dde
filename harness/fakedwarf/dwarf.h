#ifndef VT_FAKE_DWARF_H
#define VT_FAKE_DWARF_H
#define DW_TAG_array_type 1
#define DW_TAG_class_type 2
#define DW_TAG_entry_point 3
#define DW_TAG_enumeration_type 4
#define DW_TAG_formal_parameter 5
#define DW_TAG_imported_declaration 8
#define DW_TAG_label 0xa
#define DW_TAG_lexical_block 0xb
#define DW_TAG_member 0xd
#define DW_TAG_pointer_type 0xf
#define DW_TAG_reference_type 0x10
#define DW_TAG_compile_unit 0x11
#define DW_TAG_string_type 0x12
#define DW_TAG_structure_type 0x13
#define DW_TAG_subroutine_type 0x15
#define DW_TAG_typedef 0x16
#define DW_TAG_union_type 0x17
#define DW_TAG_unspecified_parameters 0x18
#define DW_TAG_inheritance 0x1c
#define DW_TAG_inlined_subroutine 0x1d
#define DW_TAG_module 0x1e
#define DW_TAG_base_type 0x24
#define DW_TAG_catch_block 0x25
#define DW_TAG_const_type 0x26
#define DW_TAG_enumerator 0x28
#define DW_TAG_subprogram 0x2e
#define DW_TAG_template_type_parameter 0x2f
#define DW_TAG_template_value_parameter 0x30
#define DW_TAG_try_block 0x32
#define DW_TAG_variable 0x34
#define DW_TAG_namespace 0x39
#define DW_TAG_imported_module 0x3a
#define DW_TAG_unspecified_type 0x3b
#define DW_TAG_partial_unit 0x3c
#define DW_TAG_imported_unit 0x3d
#define DW_TAG_type_unit 0x41
#define DW_TAG_rvalue_reference_type 0x42
#define DW_TAG_template_alias 0x43
#define DW_TAG_call_site 0x48
#define DW_TAG_call_site_parameter 0x49
#define DW_TAG_skeleton_unit 0x4a
#define DW_AT_sibling 1
#define DW_AT_location 2
#define DW_AT_name 3
#define DW_AT_byte_size 0xb
#define DW_AT_stmt_list 0x10
#define DW_AT_low_pc 0x11
#define DW_AT_high_pc 0x12
#define DW_AT_language 0x13
#define DW_AT_import 0x18
#define DW_AT_comp_dir 0x1b
#define DW_AT_inline 0x20
#define DW_AT_producer 0x25
#define DW_AT_prototyped 0x27
#define DW_AT_abstract_origin 0x31
#define DW_AT_artificial 0x34
#define DW_AT_decl_column 0x39
#define DW_AT_decl_file 0x3a
#define DW_AT_decl_line 0x3b
#define DW_AT_declaration 0x3c
#define DW_AT_external 0x3f
#define DW_AT_frame_base 0x40
#define DW_AT_specification 0x47
#define DW_AT_type 0x49
#define DW_AT_entry_pc 0x52
#define DW_AT_ranges 0x55
#define DW_AT_call_column 0x57
#define DW_AT_call_file 0x58
#define DW_AT_call_line 0x59
#define DW_AT_object_pointer 0x64
#define DW_AT_linkage_name 0x6e
#define DW_AT_str_offsets_base 0x72
#define DW_AT_addr_base 0x73
#define DW_AT_rnglists_base 0x74
#define DW_AT_dwo_name 0x76
#define DW_AT_MIPS_linkage_name 0x2007
#define DW_AT_GNU_dwo_name 0x2130
#define DW_AT_GNU_dwo_id 0x2131
#define DW_AT_GNU_ranges_base 0x2132
#define DW_AT_GNU_addr_base 0x2133
#define DW_AT_sf_names 0x2101
#define DW_FORM_addr 1
#define DW_FORM_block2 3
#define DW_FORM_block4 4
#define DW_FORM_data2 5
#define DW_FORM_data4 6
#define DW_FORM_data8 7
#define DW_FORM_string 8
#define DW_FORM_block 9
#define DW_FORM_block1 0xa
#define DW_FORM_data1 0xb
#define DW_FORM_flag 0xc
#define DW_FORM_sdata 0xd
#define DW_FORM_strp 0xe
#define DW_FORM_udata 0xf
#define DW_FORM_ref_addr 0x10
#define DW_FORM_ref1 0x11
#define DW_FORM_ref2 0x12
#define DW_FORM_ref4 0x13
#define DW_FORM_ref8 0x14
#define DW_FORM_ref_udata 0x15
#define DW_FORM_indirect 0x16
#define DW_FORM_sec_offset 0x17
#define DW_FORM_exprloc 0x18
#define DW_FORM_flag_present 0x19
#define DW_FORM_strx 0x1a
#define DW_FORM_addrx 0x1b
#define DW_FORM_ref_sup4 0x1c
#define DW_FORM_strp_sup 0x1d
#define DW_FORM_data16 0x1e
#define DW_FORM_line_strp 0x1f
#define DW_FORM_ref_sig8 0x20
#define DW_FORM_implicit_const 0x21
#define DW_FORM_loclistx 0x22
#define DW_FORM_rnglistx 0x23
#define DW_FORM_ref_sup8 0x24
#define DW_FORM_strx1 0x25
#define DW_FORM_strx2 0x26
#define DW_FORM_strx3 0x27
#define DW_FORM_strx4 0x28
#define DW_FORM_addrx1 0x29
#define DW_FORM_addrx2 0x2a
#define DW_FORM_addrx3 0x2b
#define DW_FORM_addrx4 0x2c
#define DW_FORM_GNU_addr_index 0x1f01
#define DW_FORM_GNU_str_index 0x1f02
#define DW_FORM_GNU_ref_alt 0x1f20
#define DW_FORM_GNU_strp_alt 0x1f21
#define DW_RLE_end_of_list 0
#define DW_RLE_base_addressx 1
#define DW_RLE_startx_endx 2
#define DW_RLE_startx_length 3
#define DW_RLE_offset_pair 4
#define DW_RLE_base_address 5
#define DW_RLE_start_end 6
#define DW_RLE_start_length 7
#define DW_UT_compile 1
#define DW_UT_type 2
#define DW_UT_partial 3
#define DW_UT_skeleton 4
#define DW_UT_split_compile 5
#define DW_UT_split_type 6
#define DW_INL_inlined 1
#endif
