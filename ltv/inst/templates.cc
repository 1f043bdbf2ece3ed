// explicit instantiations of the templates of /repo, so that every member function has a body to verify
#include <lttoolbox/buffer.h>
#include <lttoolbox/sorted_vector.hpp>
template class Buffer<int>;
template class sorted_vector<int>;
template void sorted_vector<int>::insert(std::vector<int>::const_iterator, std::vector<int>::const_iterator);
template void sorted_vector<int>::erase(std::vector<int>::const_iterator, std::vector<int>::const_iterator);
