// Index factory for the Python-level checks: the same PyIndex classes as /repo's generated dispatch table, restricted to
// float vectors, 32-bit ids and the HNSW builder (the generated table has 33 combinations and takes minutes to compile).
#include "index.hpp"
#include "index_factory.hpp"
namespace alaya {
namespace {
template <class Search, class Build>
auto make(const IndexParams &p) -> std::unique_ptr<BasePyIndex> {
  return std::make_unique<PyIndex<HNSWBuilder<Build>, Search>>(p);
}
using FS = SequentialStorage<float, uint32_t>;
using US = SequentialStorage<uint8_t, uint32_t>;
using RawE = RawSpace<float, float, uint32_t, FS, EmptyScalarData>;
using RawS = RawSpace<float, float, uint32_t, FS, ScalarData>;
}  // namespace
auto IndexFactory::create(const IndexParams &p) -> std::unique_ptr<BasePyIndex> {
  if (!p.data_type_.is(py::dtype::of<float>()) || !p.id_type_.is(py::dtype::of<uint32_t>()) || p.index_type_ != IndexType::HNSW) throw std::runtime_error("combination not built into the check");
  switch (p.quantization_type_) {
    case QuantizationType::NONE:
      return p.has_scalar_data_ ? make<RawS, RawS>(p) : make<RawE, RawE>(p);
    case QuantizationType::SQ8:
      if (p.has_scalar_data_) return make<SQ8Space<float, float, uint32_t, US, ScalarData>, RawE>(p);
      return make<SQ8Space<float, float, uint32_t, US, EmptyScalarData>, RawE>(p);
#ifdef PYF_ALL
    case QuantizationType::SQ4:
      if (p.has_scalar_data_) return make<SQ4Space<float, float, uint32_t, US, ScalarData>, RawE>(p);
      return make<SQ4Space<float, float, uint32_t, US, EmptyScalarData>, RawE>(p);
    case QuantizationType::RABITQ:
      if (p.has_scalar_data_) return make<RaBitQSpace<float, float, uint32_t, ScalarData>, RaBitQSpace<float, float, uint32_t, ScalarData>>(p);
      return make<RaBitQSpace<float, float, uint32_t, EmptyScalarData>, RaBitQSpace<float, float, uint32_t, EmptyScalarData>>(p);
#endif
    default:
      throw std::runtime_error("combination not built into the check");
  }
}
}  // namespace alaya
