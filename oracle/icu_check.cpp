// Reads `vmon refdump` output and checks every line against ICU (development
// aid: validates the reference normaliser and segmenter, not the crate).
#include <unicode/normalizer2.h>
#include <unicode/brkiter.h>
#include <unicode/unistr.h>
#include <iostream>
#include <sstream>
#include <vector>
using namespace icu;
static std::vector<std::string> split(const std::string& s, char d) { std::vector<std::string> o; std::string c; for (char x : s) if (x == d) { o.push_back(c); c.clear(); } else c += x; o.push_back(c); return o; }
static UnicodeString us(const std::string& s) { UnicodeString u; std::istringstream i(s); std::string w; while (i >> w) u.append((UChar32)std::stoul(w, 0, 16)); return u; }
int main() {
    UErrorCode e = U_ZERO_ERROR;
    const Normalizer2* n[4] = {Normalizer2::getNFDInstance(e), Normalizer2::getNFKDInstance(e), Normalizer2::getNFCInstance(e), Normalizer2::getNFKCInstance(e)};
    BreakIterator* b = BreakIterator::createCharacterInstance(Locale::getRoot(), e);
    std::string l; long lines = 0, bad = 0;
    while (std::getline(std::cin, l)) {
        auto f = split(l, '|'); lines++;
        UnicodeString u = us(f[0]);
        for (int k = 0; k < 4; k++) { e = U_ZERO_ERROR; if (n[k]->normalize(u, e) != us(f[k + 1])) { if (bad++ < 10) std::cout << "FORM " << k << " " << l << "\n"; } }
        b->setText(u); std::string o; int32_t p = b->first(), q;
        while ((q = b->next()) != BreakIterator::DONE) { if (!o.empty()) o += ' '; o += std::to_string(u.countChar32(p, q - p)); p = q; }
        if (o != f[5]) { if (bad++ < 10) std::cout << "SEG icu=" << o << " " << l << "\n"; }
    }
    std::cout << lines << " lines, " << bad << " disagreements\n"; return bad > 0;
}
