// Compiled for the symbolic run only: the few functions of libprotobuf 3.21 that are not in its headers and that
// building, clearing, copying, reading and destroying heap-allocated messages call.  They stand in for the library
// (external code, assumed correct); everything else of a message class - the generated .pb.cc/.pb.h of the current
// .proto files, RepeatedField, RepeatedPtrField, oneof handling - is the real code.
#include <google/protobuf/arenastring.h>
#include <google/protobuf/message.h>
#include <google/protobuf/repeated_field.h>
#include <google/protobuf/repeated_ptr_field.h>
#include <cstring>
#include <string>
namespace google::protobuf {
template class RepeatedField<double>;  // the header's own definitions
namespace internal {
ExplicitlyConstructedArenaString fixed_address_empty_string{};
void ArenaStringPtr::Set(ConstStringParam v, Arena *arena) {
  if (tagged_ptr_.IsDefault())
    NewString(arena, v);
  else
    *tagged_ptr_.Get() = v;
}
void ArenaStringPtr::Set(std::string &&v, Arena *arena) {
  if (tagged_ptr_.IsDefault())
    NewString(arena, std::move(v));
  else
    *tagged_ptr_.Get() = std::move(v);
}
std::string *ArenaStringPtr::Mutable(Arena *arena) {
  return tagged_ptr_.IsDefault() ? NewString(arena) : tagged_ptr_.Get();
}
void ArenaStringPtr::ClearToEmpty() {
  if (!tagged_ptr_.IsDefault()) tagged_ptr_.Get()->clear();
}
void ArenaStringPtr::Destroy() { delete tagged_ptr_.GetIfAllocated(); }
void **RepeatedPtrFieldBase::InternalExtend(int n) {
  const int want = current_size_ + n;
  if (total_size_ >= want) return &rep_->elements[current_size_];
  const int size = want > 2 * total_size_ ? (want < 4 ? 4 : want) : 2 * total_size_;
  Rep *const old = rep_;
  rep_ = reinterpret_cast<Rep *>(::operator new(kRepHeaderSize + sizeof(void *) * size));
  rep_->allocated_size = 0;
  if (old) {
    for (int i = 0; i < old->allocated_size; ++i) rep_->elements[i] = old->elements[i];
    rep_->allocated_size = old->allocated_size;
    ::operator delete(old);
  }
  total_size_ = size;
  return &rep_->elements[current_size_];
}
void RepeatedPtrFieldBase::Reserve(int n) {
  if (n > current_size_) InternalExtend(n - current_size_);
}
void *RepeatedPtrFieldBase::AddOutOfLineHelper(void *obj) {
  if (!rep_ || rep_->allocated_size == total_size_) InternalExtend(1);
  ++rep_->allocated_size;
  rep_->elements[current_size_++] = obj;
  return obj;
}
void RepeatedPtrFieldBase::DestroyProtos() {
  Rep *const r = rep_;
  rep_ = nullptr;
  for (int i = 0; i < r->allocated_size; ++i) delete static_cast<MessageLite *>(r->elements[i]);
  ::operator delete(r);
}
void InternalMetadata::CheckedDestruct() {}
MessageLite *GetOwnedMessageInternal(Arena *, MessageLite *m, Arena *) { return m; }
}  // namespace internal
}  // namespace google::protobuf
// Start-up of the library: the shared empty string.
extern "C" void irv_pb_init() { google::protobuf::internal::fixed_address_empty_string.DefaultConstruct(); }
