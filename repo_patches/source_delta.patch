From 7731100a4b0ebe0dd9cf6897e6c8ae42f1396640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:22 +0000
Subject: [PATCH 01/14] fix: count whole xxhash update() fragments of 256 bytes
 and more

The running length was advanced by the fragment size truncated to 8 bits, so a
streamed digest was wrong as soon as one update() got 256 or more bytes.
---
 include/cthash-single-header.hpp | 2 +-
 include/cthash/xxhash.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 1691958..ec3cf05 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -2856,7 +2856,7 @@ template <size_t Bits> struct xxhash {
 		const auto buffer_remaining = std::span(buffer).subspan(buffer_usage());
 
 		// everything we insert here is counting as part of input (even if we process it later)
-		length += static_cast<uint8_t>(input.size());
+		length += static_cast<value_type>(input.size());
 
 		// if there is remaining data from previous...
 		if (buffer_remaining.size() != buffer.size()) {
diff --git a/include/cthash/xxhash.hpp b/include/cthash/xxhash.hpp
index 6a0db64..7708e16 100644
--- a/include/cthash/xxhash.hpp
+++ b/include/cthash/xxhash.hpp
@@ -162,7 +162,7 @@ template <size_t Bits> struct xxhash {
 		const auto buffer_remaining = std::span(buffer).subspan(buffer_usage());
 
 		// everything we insert here is counting as part of input (even if we process it later)
-		length += static_cast<uint8_t>(input.size());
+		length += static_cast<value_type>(input.size());
 
 		// if there is remaining data from previous...
 		if (buffer_remaining.size() != buffer.size()) {
-- 
2.43.0


From 8970b7f3d0fe4e09eef01187a413998ee424c6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:07 +0000
Subject: [PATCH 02/14] fix: keep xxhash32 total length from wrapping at 4 GiB

XXH32 adds the length modulo 2^32, but the choice of the short input path must
be made on the real length: inputs of 4 GiB plus up to 15 bytes took the short path.
---
 include/cthash-single-header.hpp | 6 +++---
 include/cthash/xxhash.hpp        | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index ec3cf05..f294dfe 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -2824,7 +2824,7 @@ template <size_t Bits> struct xxhash {
 
 	// members
 	value_type seed{0u};
-	value_type length{0u};
+	uint64_t length{0u}; // total input length, must not wrap before the "short input" decision
 	acc_array internal_state{};
 	std::array<std::byte, sizeof(value_type) * 4u> buffer{};
 
@@ -2856,7 +2856,7 @@ template <size_t Bits> struct xxhash {
 		const auto buffer_remaining = std::span(buffer).subspan(buffer_usage());
 
 		// everything we insert here is counting as part of input (even if we process it later)
-		length += static_cast<value_type>(input.size());
+		length += input.size();
 
 		// if there is remaining data from previous...
 		if (buffer_remaining.size() != buffer.size()) {
@@ -2892,7 +2892,7 @@ template <size_t Bits> struct xxhash {
 	}
 
 	template <byte_like Byte> [[gnu::flatten]] constexpr auto update_and_final(std::span<const Byte> input) noexcept {
-		length = static_cast<value_type>(input.size());
+		length = input.size();
 		process_blocks(input);
 		tagged_hash_value<tag> output;
 		final_from(input, output);
diff --git a/include/cthash/xxhash.hpp b/include/cthash/xxhash.hpp
index 7708e16..2a85b56 100644
--- a/include/cthash/xxhash.hpp
+++ b/include/cthash/xxhash.hpp
@@ -130,7 +130,7 @@ template <size_t Bits> struct xxhash {
 
 	// members
 	value_type seed{0u};
-	value_type length{0u};
+	uint64_t length{0u}; // total input length, must not wrap before the "short input" decision
 	acc_array internal_state{};
 	std::array<std::byte, sizeof(value_type) * 4u> buffer{};
 
@@ -162,7 +162,7 @@ template <size_t Bits> struct xxhash {
 		const auto buffer_remaining = std::span(buffer).subspan(buffer_usage());
 
 		// everything we insert here is counting as part of input (even if we process it later)
-		length += static_cast<value_type>(input.size());
+		length += input.size();
 
 		// if there is remaining data from previous...
 		if (buffer_remaining.size() != buffer.size()) {
@@ -200,7 +200,7 @@ template <size_t Bits> struct xxhash {
 	// TODO: any range with value convertible to byte
 
 	template <byte_like Byte> [[gnu::flatten]] constexpr auto update_and_final(std::span<const Byte> input) noexcept {
-		length = static_cast<value_type>(input.size());
+		length = input.size();
 		process_blocks(input);
 		tagged_hash_value<tag> output;
 		final_from(input, output);
-- 
2.43.0


From c3c529cd6f23a03e76955a21b2bfbb3228187efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:42 +0000
Subject: [PATCH 03/14] fix: do not sign-extend negative chars in constant
 evaluation

Full blocks of char/signed char input with the top bit set gave a different
digest at compile time than at run time.
---
 include/cthash-single-header.hpp    | 4 ++--
 include/cthash/internal/convert.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index f294dfe..0c674f2 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -1401,7 +1401,7 @@ template <typename It1, typename It2, typename It3> constexpr auto byte_copy(It1
 template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_bytes(std::span<const Byte, sizeof(T)> in) noexcept -> T {
 	if consteval {
 		return [&]<size_t... Idx>(std::index_sequence<Idx...>) -> T {
-			return static_cast<T>(((static_cast<T>(in[Idx]) << ((sizeof(T) - 1u - Idx) * 8u)) | ...));
+			return static_cast<T>(((static_cast<T>(static_cast<std::byte>(in[Idx])) << ((sizeof(T) - 1u - Idx) * 8u)) | ...));
 		}(std::make_index_sequence<sizeof(T)>());
 	} else {
 		T t;
@@ -1417,7 +1417,7 @@ template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_byt
 template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_le_bytes(std::span<const Byte, sizeof(T)> in) noexcept -> T {
 	if consteval {
 		return [&]<size_t... Idx>(std::index_sequence<Idx...>) -> T {
-			return static_cast<T>(((static_cast<T>(in[Idx]) << static_cast<T>(Idx * 8u)) | ...));
+			return static_cast<T>(((static_cast<T>(static_cast<std::byte>(in[Idx])) << static_cast<T>(Idx * 8u)) | ...));
 		}(std::make_index_sequence<sizeof(T)>());
 	} else {
 		T t;
diff --git a/include/cthash/internal/convert.hpp b/include/cthash/internal/convert.hpp
index d75ddcc..16ac33f 100644
--- a/include/cthash/internal/convert.hpp
+++ b/include/cthash/internal/convert.hpp
@@ -18,7 +18,7 @@ template <typename It1, typename It2, typename It3> constexpr auto byte_copy(It1
 template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_bytes(std::span<const Byte, sizeof(T)> in) noexcept -> T {
 	if consteval {
 		return [&]<size_t... Idx>(std::index_sequence<Idx...>) -> T {
-			return static_cast<T>(((static_cast<T>(in[Idx]) << ((sizeof(T) - 1u - Idx) * 8u)) | ...));
+			return static_cast<T>(((static_cast<T>(static_cast<std::byte>(in[Idx])) << ((sizeof(T) - 1u - Idx) * 8u)) | ...));
 		}(std::make_index_sequence<sizeof(T)>());
 	} else {
 		T t;
@@ -34,7 +34,7 @@ template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_byt
 template <std::unsigned_integral T, byte_like Byte> constexpr auto cast_from_le_bytes(std::span<const Byte, sizeof(T)> in) noexcept -> T {
 	if consteval {
 		return [&]<size_t... Idx>(std::index_sequence<Idx...>) -> T {
-			return static_cast<T>(((static_cast<T>(in[Idx]) << static_cast<T>(Idx * 8u)) | ...));
+			return static_cast<T>(((static_cast<T>(static_cast<std::byte>(in[Idx])) << static_cast<T>(Idx * 8u)) | ...));
 		}(std::make_index_sequence<sizeof(T)>());
 	} else {
 		T t;
-- 
2.43.0


From 603f85aa906c5a0eb47b9ebd9a0ec24dd82b91ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:11 +0000
Subject: [PATCH 04/14] fix: reject encoding names longer than the longest
 known name

The name was cut to the length of the longest known one before it was compared,
so base64_no_padding followed by anything was accepted.
---
 include/cthash-single-header.hpp      | 4 ++--
 include/cthash/encoding/encodings.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 0c674f2..02879d5 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -761,8 +761,8 @@ template <typename Encoding, typename DefaultEncoding = encoding::hexdec, typena
 		return result{.encoding = DefaultEncoding{}, .iterator = it};
 	}
 
-	// this will copy it into buffer to compare
-	std::array<char, Encoding::longest_name_size> buffer{};
+	// this will copy it into buffer to compare (one more than longest name, so a longer name never matches)
+	std::array<char, Encoding::longest_name_size + 1u> buffer{};
 	auto out = buffer.begin();
 
 	for (;;) {
diff --git a/include/cthash/encoding/encodings.hpp b/include/cthash/encoding/encodings.hpp
index 37508da..fd9bfde 100644
--- a/include/cthash/encoding/encodings.hpp
+++ b/include/cthash/encoding/encodings.hpp
@@ -173,8 +173,8 @@ template <typename Encoding, typename DefaultEncoding = encoding::hexdec, typena
 		return result{.encoding = DefaultEncoding{}, .iterator = it};
 	}
 
-	// this will copy it into buffer to compare
-	std::array<char, Encoding::longest_name_size> buffer{};
+	// this will copy it into buffer to compare (one more than longest name, so a longer name never matches)
+	std::array<char, Encoding::longest_name_size + 1u> buffer{};
 	auto out = buffer.begin();
 
 	for (;;) {
-- 
2.43.0


From c04d04ae75fb54fbb2cc77369e67ba32426972e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:41 +0000
Subject: [PATCH 05/14] fix: make the single header self-contained

It uses uint8_t before anything included <cstdint> (the modular header already
includes it).
---
 include/cthash-single-header.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 02879d5..ab111b4 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -116,6 +116,7 @@ template <typename CharT, size_t N> fixed_string(const CharT (&)[N]) -> fixed_st
 
 #include <ranges>
 #include <concepts>
+#include <cstdint>
 
 namespace cthash {
 
-- 
2.43.0


From 644a6dcce3506c7143611f294bdad902a6bb6e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:24 +0000
Subject: [PATCH 06/14] fix: checksum reports an unreadable file instead of
 crashing

A failed lseek or mmap (pipe, directory, out of address space) was used as the
size and address of the file content.
---
 checksum.cpp | 35 ++++++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 7 deletions(-)

diff --git a/checksum.cpp b/checksum.cpp
index eab5903..0159c10 100644
--- a/checksum.cpp
+++ b/checksum.cpp
@@ -9,31 +9,47 @@ struct mapped_file {
 	static constexpr int invalid = -1;
 
 	int fd{invalid};
-	size_t sz{0};
+	off_t sz{0};
 	void * ptr{nullptr};
 
-	static size_t get_size(int fd) {
+	static off_t get_size(int fd) {
 		if (fd == invalid) {
 			return 0;
 		}
 
-		return (size_t)lseek(fd, 0, SEEK_END);
+		return lseek(fd, 0, SEEK_END);
 	}
 
-	mapped_file(const char * path): fd{open(path, O_RDONLY)}, sz{get_size(fd)}, ptr{mmap(nullptr, sz, PROT_READ, MAP_PRIVATE, fd, 0)} { }
+	static void * map(int fd, off_t sz) {
+		// there is nothing to map in an empty file
+		if (fd == invalid || sz <= 0) {
+			return nullptr;
+		}
+
+		return mmap(nullptr, (size_t)sz, PROT_READ, MAP_PRIVATE, fd, 0);
+	}
+
+	mapped_file(const char * path): fd{open(path, O_RDONLY)}, sz{get_size(fd)}, ptr{map(fd, sz)} { }
 
 	mapped_file(const mapped_file &) = delete;
 	mapped_file(mapped_file &&) = delete;
 
 	~mapped_file() {
-		if (ptr && fd != invalid) {
-			munmap(ptr, sz);
+		if (ptr && ptr != MAP_FAILED) {
+			munmap(ptr, (size_t)sz);
+		}
+
+		if (fd != invalid) {
 			close(fd);
 		}
 	}
 
+	bool readable() const noexcept {
+		return sz >= 0 && ptr != MAP_FAILED;
+	}
+
 	auto get_span() const noexcept {
-		return std::span<const std::byte>(reinterpret_cast<std::byte *>(ptr), sz);
+		return std::span<const std::byte>(reinterpret_cast<std::byte *>(ptr), (size_t)sz);
 	}
 };
 
@@ -54,6 +70,11 @@ int main(int argc, char ** argv) {
 		return 1;
 	}
 
+	if (!f.readable()) {
+		std::cerr << "can't read file!\n";
+		return 1;
+	}
+
 	const auto start = std::chrono::high_resolution_clock::now();
 
 	if (h == "sha-224") {
-- 
2.43.0


From 4808a4b0086e0aefdb0f5848198169de5adbb645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:30 +0000
Subject: [PATCH 07/14] fix: checksum fails when the hash can't be written

The exit status was 0 even when nothing reached stdout (full disk, closed pipe).
---
 checksum.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/checksum.cpp b/checksum.cpp
index 0159c10..7653aa2 100644
--- a/checksum.cpp
+++ b/checksum.cpp
@@ -134,6 +134,11 @@ int main(int argc, char ** argv) {
 		return 1;
 	}
 
+	if (!std::cout.flush()) {
+		std::cerr << "can't write the hash!\n";
+		return 1;
+	}
+
 	const auto end = std::chrono::high_resolution_clock::now();
 	const auto dur = end - start;
 
-- 
2.43.0


From 8d3f39663508cbf5c1c3da3746cf9d6c0c981b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:28 +0000
Subject: [PATCH 08/14] fix: let exceptions of a source pass through encoded
 views

A source whose iterator or stream buffer throws ended the program, because
the iterators of encoded views were declared noexcept.
---
 include/cthash/encoding/base.hpp          |  8 ++++----
 include/cthash/encoding/chunk-of-bits.hpp | 14 +++++++-------
 2 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/cthash/encoding/base.hpp b/include/cthash/encoding/base.hpp
index 745130d..6071729 100644
--- a/include/cthash/encoding/base.hpp
+++ b/include/cthash/encoding/base.hpp
@@ -38,11 +38,11 @@ template <typename Encoding, typename CharT, typename R> struct encode_to_view {
 
 		chunk_view::template iterator<Const> it;
 
-		constexpr iterator & operator++() noexcept {
+		constexpr iterator & operator++() {
 			++it;
 			return *this;
 		}
-		constexpr iterator operator++(int) noexcept {
+		constexpr iterator operator++(int) {
 			auto copy = *this;
 			++it;
 			return copy;
@@ -70,11 +70,11 @@ template <typename Encoding, typename CharT, typename R> struct encode_to_view {
 
 	constexpr encode_to_view(R _input): input{_input} { }
 
-	constexpr auto begin() const noexcept {
+	constexpr auto begin() const {
 		return iterator<true>{input.begin()};
 	}
 
-	constexpr auto begin() noexcept {
+	constexpr auto begin() {
 		return iterator<false>{input.begin()};
 	}
 
diff --git a/include/cthash/encoding/chunk-of-bits.hpp b/include/cthash/encoding/chunk-of-bits.hpp
index 7b47f6a..195bc3b 100644
--- a/include/cthash/encoding/chunk-of-bits.hpp
+++ b/include/cthash/encoding/chunk-of-bits.hpp
@@ -57,7 +57,7 @@ template <typename Buffer, bool AllowPadding> requires(Buffer::aligned()) struct
 		return buffer.pop();
 	}
 
-	template <typename It, typename End> constexpr void feed_buffer(It & it, End end) noexcept {
+	template <typename It, typename End> constexpr void feed_buffer(It & it, End end) {
 		using input_value_type = std::iterator_traits<It>::value_type;
 
 		while (!buffer.has_bits_for_pop() && (it != end)) {
@@ -118,7 +118,7 @@ template <typename Buffer, bool AllowPadding> requires(!Buffer::aligned()) struc
 		// do nothing :)
 	}
 
-	template <typename It, typename End> constexpr void feed_buffer(It & it, End end) noexcept {
+	template <typename It, typename End> constexpr void feed_buffer(It & it, End end) {
 		using input_value_type = std::iterator_traits<It>::value_type;
 
 		for (;;) {
@@ -182,7 +182,7 @@ template <size_t Bits, bool AllowPadding, std::ranges::input_range Input> requir
 
 		storage_type buffer{};
 
-		constexpr iterator(parent & p) noexcept: it{std::ranges::begin(p)}, end{std::ranges::end(p)} {
+		constexpr iterator(parent & p): it{std::ranges::begin(p)}, end{std::ranges::end(p)} {
 			// initialize
 			buffer.feed_buffer(it, end);
 		}
@@ -193,13 +193,13 @@ template <size_t Bits, bool AllowPadding, std::ranges::input_range Input> requir
 		iterator & operator=(const iterator &) = default;
 		iterator & operator=(iterator &&) = default;
 
-		constexpr iterator & operator++() noexcept {
+		constexpr iterator & operator++() {
 			buffer.pop();
 			buffer.feed_buffer(it, end);
 			return *this;
 		}
 
-		constexpr iterator operator++(int) noexcept {
+		constexpr iterator operator++(int) {
 			auto copy = *this;
 			this->operator++();
 			return copy;
@@ -223,11 +223,11 @@ template <size_t Bits, bool AllowPadding, std::ranges::input_range Input> requir
 
 	constexpr chunk_of_bits_view(Input _input) noexcept: input{_input} { }
 
-	constexpr auto begin() const noexcept {
+	constexpr auto begin() const {
 		return iterator<true>{input};
 	}
 
-	constexpr auto begin() noexcept {
+	constexpr auto begin() {
 		return iterator<false>{input};
 	}
 
-- 
2.43.0


From 5882340ab8f4f01e82521f664ee72049ba9f8add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:52 +0000
Subject: [PATCH 09/14] fix: checksum fails for directories and files that hide
 their size

---
 checksum.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/checksum.cpp b/checksum.cpp
index 7653aa2..737f5a6 100644
--- a/checksum.cpp
+++ b/checksum.cpp
@@ -45,7 +45,13 @@ struct mapped_file {
 	}
 
 	bool readable() const noexcept {
-		return sz >= 0 && ptr != MAP_FAILED;
+		if (sz == 0) {
+			// directories and special files can pretend to be empty
+			char c;
+			return pread(fd, &c, 1, 0) == 0;
+		}
+
+		return sz > 0 && ptr != MAP_FAILED;
 	}
 
 	auto get_span() const noexcept {
-- 
2.43.0


From 69924424e1bfa4ef9b9267d9f019a89fe56056ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:51 +0000
Subject: [PATCH 10/14] fix: no shift by the full width of the bit buffer

---
 include/cthash-single-header.hpp       | 9 +++++++--
 include/cthash/encoding/bit-buffer.hpp | 9 +++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index ab111b4..03c13d5 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -185,7 +185,7 @@ public:
 	size_type bits_available{0};
 
 public:
-	template <size_t Bits> static constexpr auto mask = static_cast<storage_type>((static_cast<storage_type>(1u) << Bits) - 1u);
+	template <size_t Bits> static constexpr auto mask = static_cast<storage_type>(~uint64_t{0u} >> (64u - Bits));
 
 	constexpr friend bool operator==(const basic_bit_buffer & lhs, const basic_bit_buffer & rhs) noexcept = default;
 
@@ -207,7 +207,12 @@ public:
 
 	template <size_t Bits> constexpr void push(select_bit_integer_t<Bits> in) noexcept requires(Bits <= capacity()) {
 		assert(size() <= capacity() - Bits);
-		buffer = static_cast<storage_type>(buffer << Bits) | static_cast<storage_type>(in);
+		if constexpr (Bits < sizeof(storage_type) * 8u) {
+			buffer = static_cast<storage_type>(buffer << Bits) | static_cast<storage_type>(in);
+		} else {
+			// shift by full width of the type is undefined behaviour
+			buffer = static_cast<storage_type>(in);
+		}
 		bits_available += static_cast<size_type>(Bits);
 	}
 	constexpr void push_empty_bits(size_t count) noexcept {
diff --git a/include/cthash/encoding/bit-buffer.hpp b/include/cthash/encoding/bit-buffer.hpp
index 3f9dab6..3eed860 100644
--- a/include/cthash/encoding/bit-buffer.hpp
+++ b/include/cthash/encoding/bit-buffer.hpp
@@ -47,7 +47,7 @@ public:
 	size_type bits_available{0};
 
 public:
-	template <size_t Bits> static constexpr auto mask = static_cast<storage_type>((static_cast<storage_type>(1u) << Bits) - 1u);
+	template <size_t Bits> static constexpr auto mask = static_cast<storage_type>(~uint64_t{0u} >> (64u - Bits));
 
 	constexpr friend bool operator==(const basic_bit_buffer & lhs, const basic_bit_buffer & rhs) noexcept = default;
 
@@ -69,7 +69,12 @@ public:
 
 	template <size_t Bits> constexpr void push(select_bit_integer_t<Bits> in) noexcept requires(Bits <= capacity()) {
 		assert(size() <= capacity() - Bits);
-		buffer = static_cast<storage_type>(buffer << Bits) | static_cast<storage_type>(in);
+		if constexpr (Bits < sizeof(storage_type) * 8u) {
+			buffer = static_cast<storage_type>(buffer << Bits) | static_cast<storage_type>(in);
+		} else {
+			// shift by full width of the type is undefined behaviour
+			buffer = static_cast<storage_type>(in);
+		}
 		bits_available += static_cast<size_type>(Bits);
 	}
 	constexpr void push_empty_bits(size_t count) noexcept {
-- 
2.43.0


From 5795c8c18d339f59d2be0da784640f6a5918562e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:06 +0000
Subject: [PATCH 11/14] fix: let exceptions of a source pass through encoded
 views of the single header

---
 include/cthash-single-header.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 03c13d5..c0abab4 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -388,7 +388,7 @@ template <typename Buffer, bool AllowPadding> requires(Buffer::aligned()) struct
 		return buffer.pop();
 	}
 
-	template <typename It, typename End> constexpr void feed_buffer(It & it, End end) noexcept {
+	template <typename It, typename End> constexpr void feed_buffer(It & it, End end) {
 		using input_value_type = std::iterator_traits<It>::value_type;
 
 		while (!buffer.has_bits_for_pop() && (it != end)) {
@@ -449,7 +449,7 @@ template <typename Buffer, bool AllowPadding> requires(!Buffer::aligned()) struc
 		// do nothing :)
 	}
 
-	template <typename It, typename End> constexpr void feed_buffer(It & it, End end) noexcept {
+	template <typename It, typename End> constexpr void feed_buffer(It & it, End end) {
 		using input_value_type = std::iterator_traits<It>::value_type;
 
 		for (;;) {
@@ -513,7 +513,7 @@ template <size_t Bits, bool AllowPadding, std::ranges::input_range Input> requir
 
 		storage_type buffer{};
 
-		constexpr iterator(parent & p) noexcept: it{p.begin()}, end{p.end()} {
+		constexpr iterator(parent & p): it{p.begin()}, end{p.end()} {
 			// initialize
 			buffer.feed_buffer(it, end);
 		}
@@ -524,13 +524,13 @@ template <size_t Bits, bool AllowPadding, std::ranges::input_range Input> requir
 		iterator & operator=(const iterator &) = default;
 		iterator & operator=(iterator &&) = default;
 
-		constexpr iterator & operator++() noexcept {
+		constexpr iterator & operator++() {
 			buffer.pop();
 			buffer.feed_buffer(it, end);
 			return *this;
 		}
 
-		constexpr iterator operator++(int) noexcept {
+		constexpr iterator operator++(int) {
 			auto copy = *this;
 			this->operator++();
 			return copy;
@@ -554,11 +554,11 @@ template <size_t Bits, bool AllowPadding, std::ranges::input_range Input> requir
 
 	constexpr chunk_of_bits_view(Input _input) noexcept: input{_input} { }
 
-	constexpr auto begin() const noexcept {
+	constexpr auto begin() const {
 		return iterator<true>{input};
 	}
 
-	constexpr auto begin() noexcept {
+	constexpr auto begin() {
 		return iterator<false>{input};
 	}
 
@@ -839,11 +839,11 @@ template <typename Encoding, typename CharT, typename R> struct encode_to_view {
 
 		chunk_view::template iterator<Const> it;
 
-		constexpr iterator & operator++() noexcept {
+		constexpr iterator & operator++() {
 			++it;
 			return *this;
 		}
-		constexpr iterator operator++(int) noexcept {
+		constexpr iterator operator++(int) {
 			auto copy = *this;
 			++it;
 			return copy;
@@ -871,11 +871,11 @@ template <typename Encoding, typename CharT, typename R> struct encode_to_view {
 
 	constexpr encode_to_view(R _input): input{_input} { }
 
-	constexpr auto begin() const noexcept {
+	constexpr auto begin() const {
 		return iterator<true>{input.begin()};
 	}
 
-	constexpr auto begin() noexcept {
+	constexpr auto begin() {
 		return iterator<false>{input.begin()};
 	}
 
-- 
2.43.0


From e65d94530b955b7b5d54097e655442efa3be7e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:24 +0000
Subject: [PATCH 12/14] fix: checksum reports a disk error under the mapped
 file

---
 checksum.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/checksum.cpp b/checksum.cpp
index 737f5a6..6ddd049 100644
--- a/checksum.cpp
+++ b/checksum.cpp
@@ -1,5 +1,6 @@
 #include <cthash/cthash.hpp>
 #include <chrono>
+#include <csignal>
 #include <fcntl.h>
 #include <sys/mman.h>
 #include <unistd.h>
@@ -59,6 +60,13 @@ struct mapped_file {
 	}
 };
 
+// an error of the disk under a mapped file is reported by a signal
+extern "C" void unreadable_page(int) {
+	constexpr auto message = std::string_view{"can't read file!\n"};
+	[[maybe_unused]] const auto r = write(STDERR_FILENO, message.data(), message.size());
+	_exit(1);
+}
+
 int main(int argc, char ** argv) {
 	if (argc < 3) {
 		std::cerr << argv[0] << " hash file\n";
@@ -81,6 +89,8 @@ int main(int argc, char ** argv) {
 		return 1;
 	}
 
+	std::signal(SIGBUS, unreadable_page);
+
 	const auto start = std::chrono::high_resolution_clock::now();
 
 	if (h == "sha-224") {
-- 
2.43.0


From f64cd85d3ba7fa6a375c6d83481a6d3f85c31b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:57 +0000
Subject: [PATCH 13/14] fix: do not cut wide characters of an encoding name to
 char

An encoding name of wide characters was cut to char before it was compared, so
L"\x0168exdec" was accepted as hexdec, and U+017D ended the name.
---
 include/cthash-single-header.hpp      | 6 ++++--
 include/cthash/encoding/encodings.hpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index c0abab4..2e1029a 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -776,14 +776,16 @@ template <typename Encoding, typename DefaultEncoding = encoding::hexdec, typena
 			break;
 		}
 
-		const char c = *it;
+		const auto c = *it;
 
 		if (c == '}') {
 			break;
 		}
 
 		if (out != buffer.end()) {
-			*out++ = c;
+			// characters wider than char are in no name (and must not be cut to one which is)
+			const char narrow = static_cast<char>(c);
+			*out++ = (static_cast<decltype(c)>(narrow) == c) ? narrow : '\0';
 		}
 
 		++it;
diff --git a/include/cthash/encoding/encodings.hpp b/include/cthash/encoding/encodings.hpp
index fd9bfde..c4cf41e 100644
--- a/include/cthash/encoding/encodings.hpp
+++ b/include/cthash/encoding/encodings.hpp
@@ -182,14 +182,16 @@ template <typename Encoding, typename DefaultEncoding = encoding::hexdec, typena
 			break;
 		}
 
-		const char c = *it;
+		const auto c = *it;
 
 		if (c == '}') {
 			break;
 		}
 
 		if (out != buffer.end()) {
-			*out++ = c;
+			// characters wider than char are in no name (and must not be cut to one which is)
+			const char narrow = static_cast<char>(c);
+			*out++ = (static_cast<decltype(c)>(narrow) == c) ? narrow : '\0';
 		}
 
 		++it;
-- 
2.43.0


From d77e3ae3acdcf960b178cb3454524231dd7e51cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:24 +0000
Subject: [PATCH 14/14] fix: apply the width of a stream to the whole text

ostream_iterator inserts characters one by one, so a width set on the stream
padded the first character only: left-aligned digests were torn apart, others
were padded one character short of the width plus the length of the text.
---
 include/cthash-single-header.hpp | 32 ++++++++++++++++++++++++++++++++
 include/cthash/encoding/base.hpp | 32 ++++++++++++++++++++++++++++++++
 include/cthash/value.hpp         |  2 ++
 3 files changed, 66 insertions(+)

diff --git a/include/cthash-single-header.hpp b/include/cthash-single-header.hpp
index 2e1029a..e4c5e23 100644
--- a/include/cthash-single-header.hpp
+++ b/include/cthash-single-header.hpp
@@ -827,6 +827,36 @@ template <typename Encoding> struct encoding_properties {
 	}();
 };
 
+// width of a stream applies to the whole text (and not to its first character)
+struct stream_field {
+	std::streamsize missing{0};
+	bool left;
+
+	template <typename CharT, typename Traits, typename View> explicit stream_field(std::basic_ostream<CharT, Traits> & os, const View & view): left{(os.flags() & std::ios_base::adjustfield) == std::ios_base::left} {
+		const auto width = os.width(0);
+
+		if constexpr (requires { view.size(); }) {
+			missing = width - static_cast<std::streamsize>(view.size());
+		}
+
+		if (!left) {
+			fill(os);
+		}
+	}
+
+	template <typename CharT, typename Traits> void finish(std::basic_ostream<CharT, Traits> & os) {
+		if (left) {
+			fill(os);
+		}
+	}
+
+	template <typename CharT, typename Traits> void fill(std::basic_ostream<CharT, Traits> & os) {
+		for (; missing > 0 && os; --missing) {
+			os << os.fill();
+		}
+	}
+};
+
 template <typename Encoding, typename CharT, typename R> struct encode_to_view {
 	using properties = encoding_properties<Encoding>;
 	using chunk_view = cthash::chunk_of_bits_view<properties::bits, properties::has_padding, R>;
@@ -1126,7 +1156,9 @@ template <size_t N> struct hash_value: std::array<std::byte, N> {
 
 	template <typename Encoding = cthash::encoding::hexdec, typename CharT, typename Traits> constexpr auto & print_into(std::basic_ostream<CharT, Traits> & os) const {
 		auto hexdec_view = *this | cthash::encode_to<Encoding, CharT>;
+		auto field = stream_field(os, hexdec_view);
 		std::ranges::copy(hexdec_view, std::ostream_iterator<CharT, CharT>(os));
+		field.finish(os);
 		return os;
 	}
 
diff --git a/include/cthash/encoding/base.hpp b/include/cthash/encoding/base.hpp
index 6071729..319fc03 100644
--- a/include/cthash/encoding/base.hpp
+++ b/include/cthash/encoding/base.hpp
@@ -24,6 +24,36 @@ template <typename Encoding> struct encoding_properties {
 	}();
 };
 
+// width of a stream applies to the whole text (and not to its first character)
+struct stream_field {
+	std::streamsize missing{0};
+	bool left;
+
+	template <typename CharT, typename Traits, typename View> explicit stream_field(std::basic_ostream<CharT, Traits> & os, const View & view): left{(os.flags() & std::ios_base::adjustfield) == std::ios_base::left} {
+		const auto width = os.width(0);
+
+		if constexpr (requires { view.size(); }) {
+			missing = width - static_cast<std::streamsize>(view.size());
+		}
+
+		if (!left) {
+			fill(os);
+		}
+	}
+
+	template <typename CharT, typename Traits> void finish(std::basic_ostream<CharT, Traits> & os) {
+		if (left) {
+			fill(os);
+		}
+	}
+
+	template <typename CharT, typename Traits> void fill(std::basic_ostream<CharT, Traits> & os) {
+		for (; missing > 0 && os; --missing) {
+			os << os.fill();
+		}
+	}
+};
+
 template <typename Encoding, typename CharT, typename R> struct encode_to_view {
 	using properties = encoding_properties<Encoding>;
 	using chunk_view = cthash::chunk_of_bits_view<properties::bits, properties::has_padding, R>;
@@ -100,7 +130,9 @@ template <typename Encoding, typename CharT, typename R> struct encode_to_view {
 	}
 
 	constexpr friend std::basic_ostream<CharT> & operator<<(std::basic_ostream<CharT> & out, encode_to_view in) {
+		auto field = stream_field(out, in);
 		std::ranges::copy(in.begin(), in.end(), std::ostream_iterator<CharT, CharT>(out));
+		field.finish(out);
 		return out;
 	}
 };
diff --git a/include/cthash/value.hpp b/include/cthash/value.hpp
index 6b9d9af..2cacf4f 100644
--- a/include/cthash/value.hpp
+++ b/include/cthash/value.hpp
@@ -34,7 +34,9 @@ template <size_t N> struct hash_value: std::array<std::byte, N> {
 
 	template <typename Encoding = cthash::encoding::hexdec, typename CharT, typename Traits> constexpr auto & print_into(std::basic_ostream<CharT, Traits> & os) const {
 		auto hexdec_view = *this | cthash::encode_to<Encoding, CharT>;
+		auto field = stream_field(os, hexdec_view);
 		std::ranges::copy(hexdec_view, std::ostream_iterator<CharT, CharT>(os));
+		field.finish(os);
 		return os;
 	}
 
-- 
2.43.0

