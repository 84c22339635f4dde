/* A stand-in for libdwarf's interface (2.x), for building cpptrace's debug information reader where libdwarf is not
   installed. The implementation is fakedwarf.cpp. Only what such a reader needs is here. */
#ifndef VT_FAKE_LIBDWARF_H
#define VT_FAKE_LIBDWARF_H
#ifdef __cplusplus
extern "C" {
#endif
typedef unsigned long long Dwarf_Unsigned;
typedef signed long long Dwarf_Signed;
typedef unsigned long long Dwarf_Off;
typedef unsigned long long Dwarf_Addr;
typedef int Dwarf_Bool;
typedef unsigned short Dwarf_Half;
typedef unsigned char Dwarf_Small;
typedef void* Dwarf_Ptr;
typedef struct Dwarf_Sig8_s { char signature[8]; } Dwarf_Sig8;
typedef struct Dwarf_Debug_s* Dwarf_Debug;
typedef struct Dwarf_Die_s* Dwarf_Die;
typedef struct Dwarf_Attribute_s* Dwarf_Attribute;
typedef struct Dwarf_Line_s* Dwarf_Line;
typedef struct Dwarf_Line_Context_s* Dwarf_Line_Context;
typedef struct Dwarf_Arange_s* Dwarf_Arange;
typedef struct Dwarf_Rnglists_Head_s* Dwarf_Rnglists_Head;
typedef struct Dwarf_Error_s* Dwarf_Error;
typedef void (*Dwarf_Handler)(Dwarf_Error, Dwarf_Ptr);
enum Dwarf_Ranges_Entry_Type { DW_RANGES_ENTRY, DW_RANGES_ADDRESS_SELECTION, DW_RANGES_END };
typedef struct {
    Dwarf_Addr dwr_addr1;
    Dwarf_Addr dwr_addr2;
    enum Dwarf_Ranges_Entry_Type dwr_type;
} Dwarf_Ranges;
enum Dwarf_Form_Class {
    DW_FORM_CLASS_UNKNOWN = 0, DW_FORM_CLASS_ADDRESS = 1, DW_FORM_CLASS_BLOCK = 2, DW_FORM_CLASS_CONSTANT = 3, DW_FORM_CLASS_EXPRLOC = 4,
    DW_FORM_CLASS_FLAG = 5, DW_FORM_CLASS_LINEPTR = 6, DW_FORM_CLASS_LOCLISTPTR = 7, DW_FORM_CLASS_MACPTR = 8, DW_FORM_CLASS_RANGELISTPTR = 9,
    DW_FORM_CLASS_REFERENCE = 10, DW_FORM_CLASS_STRING = 11, DW_FORM_CLASS_FRAMEPTR = 12, DW_FORM_CLASS_MACROPTR = 13, DW_FORM_CLASS_ADDRPTR = 14,
    DW_FORM_CLASS_LOCLIST = 15, DW_FORM_CLASS_LOCLISTSPTR = 16, DW_FORM_CLASS_RNGLIST = 17, DW_FORM_CLASS_RNGLISTSPTR = 18, DW_FORM_CLASS_STROFFSETSPTR = 19
};
#define DW_DLV_NO_ENTRY -1
#define DW_DLV_OK 0
#define DW_DLV_ERROR 1
#define DW_GROUPNUMBER_ANY 0
#define DW_GROUPNUMBER_BASE 1
#define DW_GROUPNUMBER_DWO 2
#define DW_DLA_STRING 0x01
#define DW_DLA_DIE 0x08
#define DW_DLA_LINE 0x09
#define DW_DLA_ATTR 0x0a
#define DW_DLA_ERROR 0x0e
#define DW_DLA_LIST 0x0f
#define DW_DLA_ARANGE 0x11
#define DW_DLA_RANGES 0x1a

int dwarf_set_de_alloc_flag(int);
int dwarf_init_path_a(const char*, char*, unsigned, unsigned, unsigned, Dwarf_Handler, Dwarf_Ptr, Dwarf_Debug*, Dwarf_Error*);
int dwarf_init_path(const char*, char*, unsigned, unsigned, Dwarf_Handler, Dwarf_Ptr, Dwarf_Debug*, Dwarf_Error*);
int dwarf_finish(Dwarf_Debug);
int dwarf_set_tied_dbg(Dwarf_Debug, Dwarf_Debug, Dwarf_Error*);
Dwarf_Unsigned dwarf_errno(Dwarf_Error);
char* dwarf_errmsg(Dwarf_Error);
void dwarf_dealloc_error(Dwarf_Debug, Dwarf_Error);
void dwarf_dealloc(Dwarf_Debug, void*, Dwarf_Unsigned);
int dwarf_next_cu_header_d(Dwarf_Debug, Dwarf_Bool, Dwarf_Unsigned*, Dwarf_Half*, Dwarf_Off*, Dwarf_Half*, Dwarf_Half*, Dwarf_Half*, Dwarf_Sig8*, Dwarf_Unsigned*, Dwarf_Unsigned*, Dwarf_Half*, Dwarf_Error*);
int dwarf_siblingof_b(Dwarf_Debug, Dwarf_Die, Dwarf_Bool, Dwarf_Die*, Dwarf_Error*);
int dwarf_child(Dwarf_Die, Dwarf_Die*, Dwarf_Error*);
int dwarf_offdie_b(Dwarf_Debug, Dwarf_Off, Dwarf_Bool, Dwarf_Die*, Dwarf_Error*);
int dwarf_find_die_given_sig8(Dwarf_Debug, Dwarf_Sig8*, Dwarf_Die*, Dwarf_Bool*, Dwarf_Error*);
Dwarf_Bool dwarf_get_die_infotypes_flag(Dwarf_Die);
int dwarf_get_version_of_die(Dwarf_Die, Dwarf_Half*, Dwarf_Half*);
void dwarf_dealloc_die(Dwarf_Die);
int dwarf_tag(Dwarf_Die, Dwarf_Half*, Dwarf_Error*);
int dwarf_dieoffset(Dwarf_Die, Dwarf_Off*, Dwarf_Error*);
int dwarf_die_CU_offset(Dwarf_Die, Dwarf_Off*, Dwarf_Error*);
int dwarf_CU_dieoffset_given_die(Dwarf_Die, Dwarf_Off*, Dwarf_Error*);
int dwarf_diename(Dwarf_Die, char**, Dwarf_Error*);
int dwarf_hasattr(Dwarf_Die, Dwarf_Half, Dwarf_Bool*, Dwarf_Error*);
int dwarf_attr(Dwarf_Die, Dwarf_Half, Dwarf_Attribute*, Dwarf_Error*);
void dwarf_dealloc_attribute(Dwarf_Attribute);
int dwarf_whatform(Dwarf_Attribute, Dwarf_Half*, Dwarf_Error*);
int dwarf_formref(Dwarf_Attribute, Dwarf_Off*, Dwarf_Bool*, Dwarf_Error*);
int dwarf_global_formref(Dwarf_Attribute, Dwarf_Off*, Dwarf_Error*);
int dwarf_convert_to_global_offset(Dwarf_Attribute, Dwarf_Off, Dwarf_Off*, Dwarf_Error*);
int dwarf_formsig8(Dwarf_Attribute, Dwarf_Sig8*, Dwarf_Error*);
int dwarf_formstring(Dwarf_Attribute, char**, Dwarf_Error*);
int dwarf_formudata(Dwarf_Attribute, Dwarf_Unsigned*, Dwarf_Error*);
int dwarf_formsdata(Dwarf_Attribute, Dwarf_Signed*, Dwarf_Error*);
int dwarf_formaddr(Dwarf_Attribute, Dwarf_Addr*, Dwarf_Error*);
int dwarf_lowpc(Dwarf_Die, Dwarf_Addr*, Dwarf_Error*);
int dwarf_highpc_b(Dwarf_Die, Dwarf_Addr*, Dwarf_Half*, enum Dwarf_Form_Class*, Dwarf_Error*);
int dwarf_get_TAG_name(unsigned, const char**);
int dwarf_get_ranges_baseaddress(Dwarf_Debug, Dwarf_Die, Dwarf_Bool*, Dwarf_Unsigned*, Dwarf_Bool*, Dwarf_Unsigned*, Dwarf_Error*);
int dwarf_get_ranges_b(Dwarf_Debug, Dwarf_Off, Dwarf_Die, Dwarf_Off*, Dwarf_Ranges**, Dwarf_Signed*, Dwarf_Unsigned*, Dwarf_Error*);
void dwarf_dealloc_ranges(Dwarf_Debug, Dwarf_Ranges*, Dwarf_Signed);
int dwarf_rnglists_get_rle_head(Dwarf_Attribute, Dwarf_Half, Dwarf_Unsigned, Dwarf_Rnglists_Head*, Dwarf_Unsigned*, Dwarf_Unsigned*, Dwarf_Error*);
int dwarf_get_rnglists_entry_fields_a(Dwarf_Rnglists_Head, Dwarf_Unsigned, unsigned*, unsigned*, Dwarf_Unsigned*, Dwarf_Unsigned*, Dwarf_Bool*, Dwarf_Unsigned*, Dwarf_Unsigned*, Dwarf_Error*);
void dwarf_dealloc_rnglists_head(Dwarf_Rnglists_Head);
int dwarf_get_aranges(Dwarf_Debug, Dwarf_Arange**, Dwarf_Signed*, Dwarf_Error*);
int dwarf_get_arange(Dwarf_Arange*, Dwarf_Unsigned, Dwarf_Addr, Dwarf_Arange*, Dwarf_Error*);
int dwarf_get_cu_die_offset(Dwarf_Arange, Dwarf_Off*, Dwarf_Error*);
int dwarf_srclines_b(Dwarf_Die, Dwarf_Unsigned*, Dwarf_Small*, Dwarf_Line_Context*, Dwarf_Error*);
int dwarf_srclines_from_linecontext(Dwarf_Line_Context, Dwarf_Line**, Dwarf_Signed*, Dwarf_Error*);
int dwarf_srclines_two_level_from_linecontext(Dwarf_Line_Context, Dwarf_Line**, Dwarf_Signed*, Dwarf_Line**, Dwarf_Signed*, Dwarf_Error*);
void dwarf_srclines_dealloc_b(Dwarf_Line_Context);
int dwarf_lineaddr(Dwarf_Line, Dwarf_Addr*, Dwarf_Error*);
int dwarf_lineno(Dwarf_Line, Dwarf_Unsigned*, Dwarf_Error*);
int dwarf_lineoff_b(Dwarf_Line, Dwarf_Unsigned*, Dwarf_Error*);
int dwarf_linesrc(Dwarf_Line, char**, Dwarf_Error*);
int dwarf_lineendsequence(Dwarf_Line, Dwarf_Bool*, Dwarf_Error*);
int dwarf_linebeginstatement(Dwarf_Line, Dwarf_Bool*, Dwarf_Error*);
int dwarf_srcfiles(Dwarf_Die, char***, Dwarf_Signed*, Dwarf_Error*);
#ifdef __cplusplus
}
#endif
#endif
