// Dumps, for every code point, the Unicode 15.1 property values known to the
// system ICU (74.x == Unicode 15.1), one TSV line per code point.  Used at
// development time (and by `make_oracle.py --check-icu`) to cross-validate the
// committed oracle tables against a source that shares nothing with the
// repository under test.
#include <unicode/uchar.h>
#include <unicode/uscript.h>
#include <unicode/unorm2.h>
#include <unicode/uversion.h>
#include <unicode/normalizer2.h>
#include <unicode/unistr.h>
#include <cstdio>
#include <string>
using namespace icu;
static const struct { const char *n; UProperty p; } BIN[] = {
 {"wspace",UCHAR_WHITE_SPACE},{"bidi_c",UCHAR_BIDI_CONTROL},{"join_c",UCHAR_JOIN_CONTROL},{"dash",UCHAR_DASH},
 {"hyphen",UCHAR_HYPHEN},{"qmark",UCHAR_QUOTATION_MARK},{"term",UCHAR_TERMINAL_PUNCTUATION},{"hex",UCHAR_HEX_DIGIT},
 {"ahex",UCHAR_ASCII_HEX_DIGIT},{"ideo",UCHAR_IDEOGRAPHIC},{"dia",UCHAR_DIACRITIC},{"ext",UCHAR_EXTENDER},
 {"nchar",UCHAR_NONCHARACTER_CODE_POINT},{"idsb",UCHAR_IDS_BINARY_OPERATOR},{"idst",UCHAR_IDS_TRINARY_OPERATOR},
 {"radical",UCHAR_RADICAL},{"uideo",UCHAR_UNIFIED_IDEOGRAPH},{"dep",UCHAR_DEPRECATED},{"sd",UCHAR_SOFT_DOTTED},
 {"loe",UCHAR_LOGICAL_ORDER_EXCEPTION},{"sterm",UCHAR_S_TERM},{"vs",UCHAR_VARIATION_SELECTOR},
 {"pat_ws",UCHAR_PATTERN_WHITE_SPACE},{"pat_syn",UCHAR_PATTERN_SYNTAX},{"pcm",UCHAR_PREPENDED_CONCATENATION_MARK},
 {"ri",UCHAR_REGIONAL_INDICATOR},{"ci",UCHAR_CASE_IGNORABLE},{"comp_ex",UCHAR_FULL_COMPOSITION_EXCLUSION},
 {"math",UCHAR_MATH},{"alpha",UCHAR_ALPHABETIC},{"lower",UCHAR_LOWERCASE},{"upper",UCHAR_UPPERCASE},{"cased",UCHAR_CASED},
 {"di",UCHAR_DEFAULT_IGNORABLE_CODE_POINT},{"gr_ext",UCHAR_GRAPHEME_EXTEND},{"ids",UCHAR_ID_START},{"idc",UCHAR_ID_CONTINUE},
 {"xids",UCHAR_XID_START},{"xidc",UCHAR_XID_CONTINUE},{"emoji",UCHAR_EMOJI},{"epres",UCHAR_EMOJI_PRESENTATION},
 {"emod",UCHAR_EMOJI_MODIFIER},{"ebase",UCHAR_EMOJI_MODIFIER_BASE},{"ecomp",UCHAR_EMOJI_COMPONENT},
 {"ext_pict",UCHAR_EXTENDED_PICTOGRAPHIC}};
static const char *sn(UProperty p,int v,UPropertyNameChoice c=U_SHORT_PROPERTY_NAME){const char*s=u_getPropertyValueName(p,v,c);return s?s:u_getPropertyValueName(p,v,U_LONG_PROPERTY_NAME);}
static int names(){
  static const struct{const char*n;UProperty p;} E[]={{"gc",UCHAR_GENERAL_CATEGORY},{"hst",UCHAR_HANGUL_SYLLABLE_TYPE},{"gcb",UCHAR_GRAPHEME_CLUSTER_BREAK},
   {"bc",UCHAR_BIDI_CLASS},{"dt",UCHAR_DECOMPOSITION_TYPE},{"blk",UCHAR_BLOCK},{"sc",UCHAR_SCRIPT},{"wb",UCHAR_WORD_BREAK},{"insc",UCHAR_INDIC_SYLLABIC_CATEGORY},
   {"ccc",UCHAR_CANONICAL_COMBINING_CLASS}};
  for(auto&e:E){ int lo=u_getIntPropertyMinValue(e.p),hi=u_getIntPropertyMaxValue(e.p); if(e.p==UCHAR_CANONICAL_COMBINING_CLASS)hi=255;
    for(int v=lo;v<=hi;v++){ const char*s=u_getPropertyValueName(e.p,v,U_SHORT_PROPERTY_NAME),*l=u_getPropertyValueName(e.p,v,U_LONG_PROPERTY_NAME);
      if(l||s) printf("%s\t%d\t%s\t%s\n",e.n,v,s?s:l,l?l:s);} }
  return 0; }
int main(int argc,char**argv){ if(argc>1) return names();
  UErrorCode ec=U_ZERO_ERROR;
  const Normalizer2 *kd=Normalizer2::getNFKCInstance(ec), *cd=Normalizer2::getNFCInstance(ec);
  UVersionInfo uv; u_getUnicodeVersion(uv);
  printf("#\t%d.%d.%d\n",uv[0],uv[1],uv[2]);
  printf("cp\tgc\tbc\tccc\tdt\tblk\tsc\tage\tgcb\twb\thst\tinsc\tna\tdm\tcdm");
  for(auto&b:BIN) printf("\t%s",b.n); printf("\n");
  for(UChar32 c=0;c<=0x10FFFF;c++){
    UVersionInfo a; u_charAge(c,a);
    char nm[256]=""; ec=U_ZERO_ERROR; u_charName(c,U_UNICODE_CHAR_NAME,nm,256,&ec);
    auto dec=[&](const Normalizer2*n){ UnicodeString d; std::string o; if(n->getRawDecomposition(c,d)){ for(int i=0;i<d.length();){UChar32 x=d.char32At(i); i+=U16_LENGTH(x); char t[12]; sprintf(t,"%s%04X",o.empty()?"":" ",x); o+=t;} } return o;};
    std::string k=dec(kd), d=dec(cd);
    printf("%X\t%s\t%s\t%d\t%s\t%s\t%s\t%d.%d\t%s\t%s\t%s\t%s\t%s\t%s\t%s",c,
      sn(UCHAR_GENERAL_CATEGORY,u_charType(c)),sn(UCHAR_BIDI_CLASS,u_charDirection(c)),u_getCombiningClass(c),
      sn(UCHAR_DECOMPOSITION_TYPE,u_getIntPropertyValue(c,UCHAR_DECOMPOSITION_TYPE)),
      sn(UCHAR_BLOCK,u_getIntPropertyValue(c,UCHAR_BLOCK)),sn(UCHAR_SCRIPT,u_getIntPropertyValue(c,UCHAR_SCRIPT)),a[0],a[1],
      sn(UCHAR_GRAPHEME_CLUSTER_BREAK,u_getIntPropertyValue(c,UCHAR_GRAPHEME_CLUSTER_BREAK)),
      sn(UCHAR_WORD_BREAK,u_getIntPropertyValue(c,UCHAR_WORD_BREAK)),
      sn(UCHAR_HANGUL_SYLLABLE_TYPE,u_getIntPropertyValue(c,UCHAR_HANGUL_SYLLABLE_TYPE)),
      sn(UCHAR_INDIC_SYLLABIC_CATEGORY,u_getIntPropertyValue(c,UCHAR_INDIC_SYLLABIC_CATEGORY),U_LONG_PROPERTY_NAME),
      nm,k.c_str(),d.c_str());
    for(auto&b:BIN) printf("\t%d",u_hasBinaryProperty(c,b.p)?1:0);
    putchar('\n');
  }
}
