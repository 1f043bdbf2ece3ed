ID="S04"; PROPERTY="S12"
NEEDS="a range with repeated elements inserted into an empty sorted_vector"
BREAKS="duplicates are only removed when the set already held something, so the first range insertion can leave an element twice"
EDITS=[("lttoolbox/sorted_vector.hpp","""		auto it = std::unique(elements.begin(), elements.end());
		elements.erase(it, elements.end());""","""		// nothing to merge with: the range is taken as it is
		if (!merged.empty()) {
			auto it = std::unique(elements.begin(), elements.end());
			elements.erase(it, elements.end());
		}""")]
DEMO='''#include <lttoolbox/sorted_vector.hpp>
#include <vector>
int main(){ std::vector<int> v{1,3,3,7}; sorted_vector<int> s; s.insert(v.begin(), v.end()); if (s.size()!=3) return 1;
 s.erase(3); return s.count(3) ? 1 : 0; }
'''
