#!/usr/bin/env python3
"""Generates OUT/absl (patched copy of the installed abseil 20220623 headers) and
OUT/pb (protoc output for /repo's protos).

google/arolla is written against abseil >= 20260526; the sandbox has 20220623.
The patches add, as header-only code, the newer API that arolla uses.  They do
not touch anything in /repo.

  gen_compat.py OUT [REPO]
"""
import glob, os, re, shutil, subprocess, sys

out = sys.argv[1]
repo = sys.argv[2] if len(sys.argv) > 2 else '/repo'
SRC = '/usr/include/absl'
dst = os.path.join(out, 'absl')


def write(path, text):
  os.makedirs(os.path.dirname(path), exist_ok=True)
  try:
    with open(path) as f:
      if f.read() == text:
        return
  except OSError:
    pass
  with open(path, 'w') as f:
    f.write(text)


files = {}
for root, _, names in os.walk(SRC):
  for n in names:
    p = os.path.join(root, n)
    files[os.path.relpath(p, SRC)] = open(p, errors='surrogateescape').read()


def sub(rel, old, new, count=1):
  s = files[rel]
  assert old in s, (rel, old)
  files[rel] = s.replace(old, new, count)


# --- status: source locations.
sub('status/status.h', '  Status(absl::StatusCode code, absl::string_view msg);\n',
    '''  Status(absl::StatusCode code, absl::string_view msg);
  Status(absl::StatusCode code, absl::string_view msg, ::absl::SourceLocation)
      : Status(code, msg) {}
  absl::Span<const ::absl::SourceLocation> GetSourceLocations() const {
    return {};
  }
  void AddSourceLocation(::absl::SourceLocation) {}
''')
sub('status/status.h', '#include "absl/strings/string_view.h"\n',
    '#include "absl/strings/string_view.h"\n#include "absl/types/span.h"\n'
    '#include "absl/types/source_location.h"\n')

# --- StatusOr<T&>.
s = files['status/statusor.h']
i = s.rindex('ABSL_NAMESPACE_END')
files['status/statusor.h'] = s[:i].replace(
    '#include <exception>', '#include <exception>\n#include <memory>', 1) + '''
// Compat: StatusOr<T&> (newer abseil API).
template <typename T>
class StatusOr<T&> {
 public:
  typedef T& value_type;
  // What StatusOr<U>'s converting constructors need.
  typedef typename std::remove_const<T>::type VerifV;
  typedef internal_statusor::StatusOrData<VerifV> Base;
  operator Base&&() const {
    auto p = status_.ok() ? std::make_shared<StatusOr<VerifV>>(*ptr_)
                          : std::make_shared<StatusOr<VerifV>>(status_);
    holder_ = p;
    return static_cast<Base&&>(*p);
  }
  StatusOr(const Status& s) : status_(s) {}
  StatusOr(Status&& s) : status_(std::move(s)) {}
  template <typename B,
            typename std::enable_if<
                std::is_convertible<const B&, Status>::value &&
                    !std::is_convertible<B&, T&>::value &&
                    !std::is_same<typename std::decay<B>::type, Status>::value &&
                    !std::is_same<typename std::decay<B>::type, StatusOr>::value,
                int>::type = 0>
  StatusOr(const B& b) : status_(static_cast<Status>(b)) {}
  StatusOr(T& v) : ptr_(std::addressof(v)) {}
  template <typename U>
  StatusOr(const StatusOr<U&>& o) : status_(o.status()) {
    if (o.ok()) ptr_ = std::addressof(*o);
  }
  bool ok() const { return status_.ok(); }
  const Status& status() const { return status_; }
  T& value() const { return *ptr_; }
  T& operator*() const { return *ptr_; }
  T* operator->() const { return ptr_; }

 private:
  Status status_;
  T* ptr_ = nullptr;
  mutable std::shared_ptr<void> holder_;
};
''' + s[i:]

# --- mutex locks that take references.
for cls in ('MutexLock', 'ReaderMutexLock', 'WriterMutexLock',
            'ReleasableMutexLock', 'MutexLockMaybe'):
  pre = 'class ABSL_SCOPED_LOCKABLE %s {\n public:\n' % cls
  sub('synchronization/mutex.h', pre,
      pre + '  explicit %s(Mutex& mu) : %s(&mu) {}\n' % (cls, cls))
sub('synchronization/mutex.h', '  void Lock() ABSL_EXCLUSIVE_LOCK_FUNCTION();',
    '''  void lock() { Lock(); }
  void unlock() { Unlock(); }
  bool try_lock() { return TryLock(); }
  void lock_shared() { ReaderLock(); }
  void unlock_shared() { ReaderUnlock(); }
  void Lock() ABSL_EXCLUSIVE_LOCK_FUNCTION();''')

# --- attributes.
files['base/attributes.h'] += '''
#ifndef ABSL_ATTRIBUTE_TRIVIAL_ABI
#define ABSL_ATTRIBUTE_TRIVIAL_ABI
#endif
#ifndef ABSL_ATTRIBUTE_VIEW
#define ABSL_ATTRIBUTE_VIEW
#endif
#ifndef ABSL_ATTRIBUTE_OWNER
#define ABSL_ATTRIBUTE_OWNER
#endif
'''
files['base/optimization.h'] += '''
#ifndef ABSL_UNREACHABLE
#define ABSL_UNREACHABLE() __builtin_unreachable()
#endif
'''

# --- string_view <-> std::string_view.
sub('strings/string_view.h', '  // Converts to `std::basic_string`.\n',
    '''  // Compat: in newer abseil absl::string_view is std::string_view.
  constexpr string_view(std::string_view s)
      : ptr_(s.data()), length_(s.size()) {}
  constexpr operator std::string_view() const {
    return std::string_view(ptr_, length_);
  }
  // Converts to `std::basic_string`.
''')
sub('strings/string_view.h', '#include <string>\n',
    '#include <string>\n#include <string_view>\n')

# --- AbslStringify.
write(os.path.join(dst, 'strings/internal/verif_stringify.h'), '''
#ifndef VERIF_COMPAT_STRINGIFY_H_
#define VERIF_COMPAT_STRINGIFY_H_
#include <string>
#include <type_traits>
#include <utility>
#include "absl/strings/string_view.h"
namespace absl {
ABSL_NAMESPACE_BEGIN
namespace strings_internal {
class StringifySink {
 public:
  void Append(size_t n, char c) { s_.append(n, c); }
  void Append(absl::string_view v) { s_.append(v.data(), v.size()); }
  friend void AbslFormatFlush(StringifySink* sink, absl::string_view v) {
    sink->Append(v);
  }
  const std::string& str() const { return s_; }

 private:
  std::string s_;
};
template <typename T, typename = void>
struct HasAbslStringify : std::false_type {};
template <typename T>
struct HasAbslStringify<
    T, std::enable_if_t<std::is_void<decltype(AbslStringify(
           std::declval<StringifySink&>(), std::declval<const T&>()))>::value>>
    : std::true_type {};
}  // namespace strings_internal
template <typename T>
struct HasAbslStringify : strings_internal::HasAbslStringify<T> {};
ABSL_NAMESPACE_END
}  // namespace absl
#endif
''')
sub('strings/str_cat.h', '#include "absl/strings/string_view.h"\n',
    '#include "absl/strings/string_view.h"\n'
    '#include "absl/strings/internal/verif_stringify.h"\n')
sub('strings/str_cat.h',
    '  // Use string literals ":" instead of character literals \':\'.\n',
    '''  template <typename T, typename = typename std::enable_if<
                            strings_internal::HasAbslStringify<T>::value>::type>
  AlphaNum(  // NOLINT(runtime/explicit)
      const T& v, strings_internal::StringifySink&& sink = {})
      : piece_((AbslStringify(sink, v), absl::string_view(sink.str()))) {}
  AlphaNum(std::string_view pc) : piece_(pc) {}  // NOLINT(runtime/explicit)

  // Use string literals ":" instead of character literals ':'.
''')
rel = 'strings/internal/str_format/arg.h'
sub(rel, '#include "absl/strings/string_view.h"\n',
    '#include "absl/strings/string_view.h"\n'
    '#include "absl/strings/internal/verif_stringify.h"\n')
sub(rel, '''template <typename T, typename = void>
struct HasUserDefinedConvert : std::false_type {};
''', '''template <typename T, typename = void>
struct HasUserDefinedConvert
    : ::absl::strings_internal::HasAbslStringify<T> {};
''')
sub(rel, 'template <typename T>\nclass StreamedWrapper;\n', '''
StringConvertResult FormatConvertImpl(string_view v,
                                      FormatConversionSpecImpl conv,
                                      FormatSinkImpl* sink);
template <typename T, typename std::enable_if<
                          ::absl::strings_internal::HasAbslStringify<T>::value,
                          int>::type = 0>
StringConvertResult FormatConvertImpl(const T& v, FormatConversionSpecImpl conv,
                                      FormatSinkImpl* sink);

template <typename T>
class StreamedWrapper;
''')
# StringConvertResult must be declared before its first use.
s = files[rel]
i = s.index('using StringConvertResult')
j = s.index(';', i) + 1
decl = s[i:j]
files[rel] = s[:i] + s[j:]
s = files[rel]
i = s.index('template <typename FormatSink')if 'template <typename FormatSink' in s else -1
# keep it simple: put the alias (and ArgConvertResult) before our declarations.
k = s.index('template <FormatConversionCharSet C>\nstruct ArgConvertResult') if (
    'template <FormatConversionCharSet C>\nstruct ArgConvertResult' in s) else -1
if k >= 0:
  e = s.index('};', k) + 3
  arg_decl = s[k:e]
  s = s[:k] + s[e:]
else:
  arg_decl = ''
mark = '\nStringConvertResult FormatConvertImpl(string_view v,\n'
i = s.index(mark)
files[rel] = s[:i] + '\n' + arg_decl + decl + '\n' + s[i:]
sub(rel, 'template <typename Arg>\nconstexpr FormatConversionCharSet ArgumentToConv()', '''
template <typename T, typename std::enable_if<
                          ::absl::strings_internal::HasAbslStringify<T>::value,
                          int>::type>
StringConvertResult FormatConvertImpl(const T& v, FormatConversionSpecImpl conv,
                                      FormatSinkImpl* sink) {
  ::absl::strings_internal::StringifySink s;
  AbslStringify(s, v);
  return FormatConvertImpl(absl::string_view(s.str()), conv, sink);
}

template <typename Arg>
constexpr FormatConversionCharSet ArgumentToConv()''')
# %v in format strings.
rel = 'strings/internal/str_format/bind.h'
sub(rel, '  FormatSpecTemplate(const char* s) : Base(s) {}  // NOLINT\n'
    '  FormatSpecTemplate(string_view s) : Base(s) {}  // NOLINT\n', '''
  static string_view VerifTranslate(string_view s) {
    if (s.find("%v") == string_view::npos) return s;
    std::string* r = new std::string(s.data(), s.size());  // leaked, few sites
    for (size_t i; (i = r->find("%v")) != std::string::npos;) (*r)[i + 1] = 's';
    return *r;
  }
  FormatSpecTemplate(const char* s) : Base(VerifTranslate(s)) {}  // NOLINT
  FormatSpecTemplate(string_view s) : Base(VerifTranslate(s)) {}  // NOLINT
''')

# --- c_contains and friends.
s = files['algorithm/container.h']
i = s.rindex('ABSL_NAMESPACE_END')
files['algorithm/container.h'] = s[:i] + '''
template <typename Sequence, typename T>
bool c_contains(const Sequence& sequence, T&& value) {
  for (const auto& x : sequence) {
    if (x == value) return true;
  }
  return false;
}
''' + s[i:]

for rel, text in files.items():
  write(os.path.join(dst, rel), text)

# --- protos.
pb = os.path.join(out, 'pb')
tmp = pb + '.tmp'
shutil.rmtree(tmp, ignore_errors=True)
os.makedirs(tmp)
protos = [os.path.relpath(p, repo)
          for p in glob.glob(repo + '/arolla/**/*.proto', recursive=True)]
subprocess.check_call(
    ['protoc', '-I.', '--cpp_out=' + os.path.abspath(tmp)] + sorted(protos),
    cwd=repo)
verif_pb = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'harness/pb')
subprocess.check_call(
    ['protoc', '-I.', '--cpp_out=' + os.path.abspath(tmp)] +
    sorted(os.path.relpath(p, verif_pb) for p in glob.glob(verif_pb + '/verifpb/*.proto')),
    cwd=verif_pb)
for root, _, names in os.walk(tmp):
  for n in names:
    p = os.path.join(root, n)
    t = open(p).read()
    if n.endswith('.pb.h'):
      t = t.replace('static_cast<ArgT0 &&>(arg0)',
                    '::verif_compat::PbStr(static_cast<ArgT0 &&>(arg0))')
      t = t.replace('#include <string>\n',
                    '#include <string>\n#include "verif_pb_compat.h"\n', 1)
      for ty in ('const std::string& value', ):
        pass
    write(os.path.join(pb, os.path.relpath(p, tmp)), t)
shutil.rmtree(tmp)
