From c7aada6d616eb078ad9c83c159c3927bdfcbd2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:05 +0000
Subject: [PATCH 001/100] fix: looking up or removing something below a VFS
 file must not throw

Vfs::resolve is noexcept, so resolving "FILE/x" terminated the process;
Vfs::remove threw std::bad_variant_access.
---
 src/Vfs.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 690a702..af1c13e 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -87,6 +87,9 @@ namespace zenkit {
 	}
 
 	VfsNode const* VfsNode::child(std::string_view name) const {
+		// Files have no children.
+		if (this->type() == VfsNodeType::FILE) return nullptr;
+
 		auto& children = std::get<ChildContainer>(_m_data);
 
 		name = trim_trailing_whitespace(name);
@@ -96,6 +99,9 @@ namespace zenkit {
 	}
 
 	VfsNode* VfsNode::child(std::string_view name) {
+		// Files have no children.
+		if (this->type() == VfsNodeType::FILE) return nullptr;
+
 		auto& children = std::get<ChildContainer>(_m_data);
 
 		name = trim_trailing_whitespace(name);
@@ -113,6 +119,8 @@ namespace zenkit {
 	}
 
 	bool VfsNode::remove(std::string_view name) {
+		if (this->type() == VfsNodeType::FILE) return false;
+
 		auto& children = std::get<ChildContainer>(_m_data);
 
 		name = trim_trailing_whitespace(name);
-- 
2.43.0


From 21e6989c49ee10601e841a7105ebd8ebf27dbe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:25 +0000
Subject: [PATCH 002/100] fix: VFS nodes with trailing whitespace in their name
 were unreachable

Lookups strip trailing whitespace from the queried name but the stored name
kept it, so such a node could neither be found, replaced nor removed.
---
 src/Vfs.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index af1c13e..5095629 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -69,10 +69,13 @@ namespace zenkit {
 		return icompare(a, b.name());
 	}
 
-	VfsNode::VfsNode(std::string_view name, time_t ts) : _m_name(name), _m_time(ts), _m_data(ChildContainer {}) {}
+	std::string_view trim_trailing_whitespace(std::string_view s);
+
+	VfsNode::VfsNode(std::string_view name, time_t ts)
+	    : _m_name(trim_trailing_whitespace(name)), _m_time(ts), _m_data(ChildContainer {}) {}
 
 	VfsNode::VfsNode(std::string_view name, VfsFileDescriptor dev, time_t ts)
-	    : _m_name(name), _m_time(ts), _m_data(dev) {}
+	    : _m_name(trim_trailing_whitespace(name)), _m_time(ts), _m_data(dev) {}
 
 	VfsNode::ChildContainer const& VfsNode::children() const {
 		return std::get<ChildContainer>(_m_data);
-- 
2.43.0


From 0390468dfc88fa7c46011142d81510f929039725 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:39 +0000
Subject: [PATCH 003/100] fix: refuse broken VFS catalogs instead of hanging or
 reading out of bounds

A catalog cut short or a directory containing itself made mount_disk loop or
recurse forever, the 32-bit sum of offset and size could wrap around and let an
entry outside the image through, and nodes mounted before a failure referred
to freed memory.
---
 src/Vfs.cc | 35 ++++++++++++++++++++++++++++++-----
 1 file changed, 30 insertions(+), 5 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index 5095629..af358f0 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -447,11 +447,11 @@ namespace zenkit {
 		auto size = buf->tell();
 		buf->seek(0, Whence::BEG);
 
-		auto mem = std::make_unique<std::byte[]>(size);
+		// Mounted nodes refer to this memory, so it has to be kept even if mounting fails half-way.
+		auto& mem = _m_data.emplace_back(std::make_unique<std::byte[]>(size));
 		buf->read(mem.get(), size);
 
 		this->mount_disk(mem.get(), size, overwrite);
-		_m_data.push_back(std::move(mem));
 	}
 
 	VfsNode const& Vfs::root() const noexcept {
@@ -635,8 +635,18 @@ namespace zenkit {
 			catalog_offset = r->tell();
 		}
 
+		// An image of an empty file system has no catalog.
+		if (entry_count == 0 && catalog_offset >= size) return;
+
+		// The catalog positions of the directories being loaded, used to detect directories containing themselves.
+		std::vector<std::size_t> directories {catalog_offset};
+
 		std::function<bool(VfsNode*)> load_entry =
-		    [&load_entry, overwrite, catalog_offset, timestamp, zipped, &r, buf, size](VfsNode* parent) {
+		    [&load_entry, &directories, overwrite, catalog_offset, timestamp, zipped, &r, buf, size](VfsNode* parent) {
+			    if (r->tell() + 80 > size) {
+				    throw VfsBrokenDiskError {"catalog is truncated"};
+			    }
+
 			    auto e_name = r->read_string(64);
 			    auto e_offset = r->read_uint();
 			    auto e_size = r->read_uint();
@@ -692,15 +702,26 @@ namespace zenkit {
 				    }
 
 				    auto self_offset = r->tell();
-				    r->seek(catalog_offset + e_offset * 80, Whence::BEG);
+				    auto dir_offset = catalog_offset + static_cast<std::size_t>(e_offset) * 80;
+				    if (dir_offset >= size) {
+					    throw VfsBrokenDiskError {"catalog is truncated"};
+				    }
+
+				    if (std::find(directories.begin(), directories.end(), dir_offset) != directories.end()) {
+					    throw VfsBrokenDiskError {"directory contains itself: " + e_name};
+				    }
+
+				    directories.push_back(dir_offset);
+				    r->seek(static_cast<ssize_t>(dir_offset), Whence::BEG);
 				    while (!load_entry(existing))
 					    ;
 				    r->seek(static_cast<ssize_t>(self_offset), Whence::BEG);
+				    directories.pop_back();
 			    } else {
 				    // For zipped VDFs, entry.Size is the uncompressed size; the actual
 				    // compressed data at e_offset is smaller. Only check offset validity.
 				    // For normal VDFs, the full extent must fit within the archive.
-				    if (zipped ? (e_offset >= size) : (e_offset + e_size > size)) {
+				    if (zipped ? (e_offset >= size) : (std::size_t {e_offset} + e_size > size)) {
 					    return last;
 				    }
 
@@ -738,6 +759,10 @@ namespace zenkit {
 			    return last;
 		    };
 
+		if (catalog_offset >= size) {
+			throw VfsBrokenDiskError {"catalog is truncated"};
+		}
+
 		r->seek(catalog_offset, Whence::BEG);
 		while (!load_entry(&_m_root))
 			;
-- 
2.43.0


From af599843a2ef5ee7abf4d55496074cde49a09144 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:39 +0000
Subject: [PATCH 004/100] fix: VFS disk timestamps were written as UTC but read
 as local time

---
 src/Vfs.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index af358f0..e5dc924 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -246,7 +246,7 @@ namespace zenkit {
 	}
 
 	static std::uint32_t vfs_unix_to_dos_time(std::time_t unix_) noexcept {
-		tm t = *gmtime(&unix_);
+		tm t = *localtime(&unix_); // DOS timestamps are local time, see below.
 
 		uint32_t dos = 0;
 		dos |= (t.tm_year - 80) << 25;
@@ -438,6 +438,7 @@ namespace zenkit {
 		t.tm_hour = static_cast<int32_t>((dos >> 11) & 0x1F);
 		t.tm_min = static_cast<int32_t>((dos >> 5) & 0x3F);
 		t.tm_sec = static_cast<int32_t>((dos >> 0) & 0x1F) * 2;
+		t.tm_isdst = -1;
 
 		return mktime(&t);
 	}
-- 
2.43.0


From 4a17233fafa308c24b25eb223fa8b86a00b1b161 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:23 +0000
Subject: [PATCH 005/100] fix: host files mounted into the VFS carried
 timestamps of another epoch

mount_host stored the raw file clock value (epoch 2174 in libstdc++), so every
host file appeared older than every file of a disk image.
---
 src/Vfs.cc | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/Vfs.cc b/src/Vfs.cc
index e5dc924..d6cf57f 100644
--- a/src/Vfs.cc
+++ b/src/Vfs.cc
@@ -549,6 +549,14 @@ namespace zenkit {
 		return pNode->remove(childName);
 	}
 
+	/// Converts a file time, whose clock has an unspecified epoch, to the Unix time used for all other nodes.
+	static std::time_t vfs_file_to_unix_time(std::filesystem::file_time_type time) {
+		auto age = time - std::filesystem::file_time_type::clock::now();
+		auto unix_ = std::chrono::system_clock::now() + age;
+		return std::chrono::system_clock::to_time_t(
+		    std::chrono::time_point_cast<std::chrono::system_clock::duration>(unix_));
+	}
+
 	void Vfs::mount_host(std::filesystem::path const& sourcePath,
 	                     std::string_view mountPoint,
 	                     VfsOverwriteBehavior overwrite) {
@@ -558,18 +566,17 @@ namespace zenkit {
 		    [this, &load_directory](VfsNode* parent, std::filesystem::path const& host) {
 			    for (auto const& ref : std::filesystem::directory_iterator(host)) {
 				    auto const& path = ref.path();
-				    auto time =
-				        std::chrono::duration_cast<std::chrono::seconds>(ref.last_write_time().time_since_epoch());
+				    auto time = vfs_file_to_unix_time(ref.last_write_time());
 
 				    if (ref.is_directory()) {
-					    VfsNode* newP = parent->create(VfsNode::directory(path.filename().string(), time.count()));
+					    VfsNode* newP = parent->create(VfsNode::directory(path.filename().string(), time));
 					    load_directory(newP, path);
 				    } else if (ref.file_size() > 0) {
 #ifdef _ZK_WITH_MMAP
 					    auto& mem = this->_m_data_mapped.emplace_back(path);
 					    parent->create(VfsNode::file(path.filename().string(),
 					                                 VfsFileDescriptor {mem.data(), mem.size(), false},
-					                                 time.count()));
+					                                 time));
 #else
 					    std::ifstream stream {path, std::ios::in | std::ios::ate | std::ios::binary};
 					    auto size = stream.tellg();
@@ -580,7 +587,7 @@ namespace zenkit {
 
 					    parent->create(VfsNode::file(path.filename().string(),
 					                                 VfsFileDescriptor {data.get(), static_cast<size_t>(size), false},
-					                                 time.count()));
+					                                 time));
 #endif
 				    }
 			    }
-- 
2.43.0


From c7606c0408df28e2b2e654dca32da541ff1792a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:49 +0000
Subject: [PATCH 006/100] fix: stream readers got stuck after reading up to the
 end

After a short read the fail bit of a std::istream stayed set, so tell() returned
-1 and seek() had no effect. Files and streams also reported the end of the data
only after reading past it, unlike readers over memory.
---
 src/Stream.cc | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/Stream.cc b/src/Stream.cc
index efedbc2..8d17f89 100644
--- a/src/Stream.cc
+++ b/src/Stream.cc
@@ -227,7 +227,11 @@ namespace zenkit {
 			}
 
 			[[nodiscard]] bool eof() const noexcept override {
-				return feof(_m_stream);
+				auto c = fgetc(_m_stream);
+				if (c == EOF) return true;
+
+				ungetc(c, _m_stream);
+				return false;
 			}
 
 		private:
@@ -240,7 +244,11 @@ namespace zenkit {
 
 			size_t read(void* buf, size_t len) noexcept override {
 				_m_stream->read(static_cast<char*>(buf), static_cast<long>(len));
-				return static_cast<size_t>(_m_stream->gcount());
+				auto count = static_cast<size_t>(_m_stream->gcount());
+
+				// Reaching the end must not disable all further positioning of the stream.
+				if (_m_stream->eof()) _m_stream->clear();
+				return count;
 			}
 
 			void seek(ssize_t off, Whence whence) noexcept override {
@@ -252,7 +260,10 @@ namespace zenkit {
 			}
 
 			[[nodiscard]] bool eof() const noexcept override {
-				return _m_stream->eof();
+				if (_m_stream->peek() != std::istream::traits_type::eof()) return false;
+
+				if (_m_stream->eof()) _m_stream->clear();
+				return true;
 			}
 
 		private:
-- 
2.43.0


From ca458f972dc4e7ad7ce6b153377c9fd94e3f66ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:16:49 +0000
Subject: [PATCH 007/100] fix: memory-mapping an empty file yielded an invalid
 mapping

---
 src/MmapPosix.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/MmapPosix.cc b/src/MmapPosix.cc
index f6d289c..11dbd57 100644
--- a/src/MmapPosix.cc
+++ b/src/MmapPosix.cc
@@ -20,9 +20,17 @@ namespace zenkit {
 			throw std::runtime_error {"Failed to stat " + path.string()};
 		}
 
+		// Empty files can not be mapped.
+		if (st.st_size == 0) {
+			close(handle);
+			_m_data = nullptr;
+			_m_size = 0;
+			return;
+		}
+
 		_m_data =
 		    static_cast<std::byte*>(mmap(nullptr, static_cast<size_t>(st.st_size), PROT_READ, MAP_SHARED, handle, 0));
-		if (_m_data == nullptr) {
+		if (_m_data == MAP_FAILED) {
 			throw std::runtime_error {"Failed to mmap " + path.string()};
 		}
 
-- 
2.43.0


From c7495ca4f8ef0101909a16fe9b914821c13af69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:36 +0000
Subject: [PATCH 008/100] fix: dividing the smallest integer by -1 crashed the
 VM

---
 src/DaedalusVm.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 0b4420e..29e165f 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -75,6 +75,11 @@ namespace zenkit {
 		bool _m_inhibited {false};
 	};
 
+	/// \brief Divides like the original 32-bit VM: the quotient of INT_MIN and -1 wraps around.
+	static std::int32_t zk_wrapping_div(std::int32_t a, std::int32_t b) {
+		return b == -1 ? static_cast<std::int32_t>(0U - static_cast<std::uint32_t>(a)) : a / b;
+	}
+
 	DaedalusVm::DaedalusVm(DaedalusScript&& scr, std::uint8_t flags) : DaedalusScript(std::move(scr)), _m_flags(flags) {
 		_m_temporary_strings = add_temporary_strings_symbol();
 		_m_temporary_strings_free.push(0);
@@ -151,7 +156,7 @@ namespace zenkit {
 
 				if (b == 0) throw DaedalusVmException {"vm: division by zero"};
 
-				push_int(a / b);
+				push_int(zk_wrapping_div(a, b));
 				break;
 			case DaedalusOpcode::MOD:
 				a = pop_int();
@@ -159,7 +164,7 @@ namespace zenkit {
 
 				if (b == 0) throw DaedalusVmException {"vm: division by zero"};
 
-				push_int(a % b);
+				push_int(b == -1 ? 0 : a % b);
 				break;
 			case DaedalusOpcode::OR:
 				push_int(pop_int() | pop_int());
@@ -384,7 +389,7 @@ namespace zenkit {
 
 				if (!ref->is_member() || context != nullptr ||
 				    !(_m_flags & DaedalusVmExecutionFlag::ALLOW_NULL_INSTANCE_ACCESS)) {
-					auto result = ref->get_int(idx, context.get()) / value;
+					auto result = zk_wrapping_div(ref->get_int(idx, context.get()), value);
 					ref->set_int(result, idx, context.get());
 				} else if (ref->is_member()) {
 					ZKLOGE("DaedalusVm", "Accessing member \"%s\" without an instance set", ref->name().c_str());
-- 
2.43.0


From bd7dab55c40433f3b75c507f5bf463fb7ce59ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:36 +0000
Subject: [PATCH 009/100] fix: function variables started out with
 uninitialised values

---
 src/DaedalusScript.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index f40ae33..28a3b0d 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -369,7 +369,7 @@ namespace zenkit {
 				break;
 			case DaedalusDataType::FUNCTION:
 				if (!this->is_const()) {
-					this->_m_value = std::unique_ptr<std::int32_t[]>(new int32_t[1]);
+					this->_m_value = std::make_unique<std::int32_t[]>(std::max(this->_m_count, 1U));
 				}
 				this->_m_address = r->read_int();
 				break;
-- 
2.43.0


From e701cca594aee035a781d1240a072df0cadc4a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:36 +0000
Subject: [PATCH 010/100] fix: accessing the value of a script function
 dereferenced a null pointer

---
 src/DaedalusScript.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index 28a3b0d..691c9cf 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -458,7 +458,7 @@ namespace zenkit {
 	}
 
 	std::int32_t DaedalusSymbol::get_int(std::uint16_t index, DaedalusInstance const* context) const {
-		if (type() != DaedalusDataType::INT && type() != DaedalusDataType::FUNCTION) {
+		if (type() != DaedalusDataType::INT && (type() != DaedalusDataType::FUNCTION || is_const())) {
 			throw DaedalusIllegalTypeAccess(this, DaedalusDataType::INT);
 		}
 		if (count() <= index) {
@@ -532,7 +532,7 @@ namespace zenkit {
 	}
 
 	void DaedalusSymbol::set_int(std::int32_t value, std::uint16_t index, DaedalusInstance* context) {
-		if (type() != DaedalusDataType::INT && type() != DaedalusDataType::FUNCTION) {
+		if (type() != DaedalusDataType::INT && (type() != DaedalusDataType::FUNCTION || is_const())) {
 			throw DaedalusIllegalTypeAccess(this, DaedalusDataType::INT);
 		}
 		if (count() <= index) {
-- 
2.43.0


From c871ade0db5b49cb2c5664add151dad08d7ec91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:28 +0000
Subject: [PATCH 011/100] fix: the VM ran on forever behind the end of the code

---
 include/zenkit/DaedalusScript.hh | 1 +
 src/DaedalusScript.cc            | 7 ++-----
 src/DaedalusVm.cc                | 4 ++++
 3 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/zenkit/DaedalusScript.hh b/include/zenkit/DaedalusScript.hh
index 1b55f89..626f7af 100644
--- a/include/zenkit/DaedalusScript.hh
+++ b/include/zenkit/DaedalusScript.hh
@@ -956,6 +956,7 @@ namespace zenkit {
 		std::unordered_map<std::uint32_t, uint32_t> _m_symbols_by_address;
 
 		mutable std::unique_ptr<Read> _m_text;
+		std::uint32_t _m_text_size {0};
 		std::uint8_t _m_version {0};
 	};
 } // namespace zenkit
diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index 691c9cf..2840067 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -116,6 +116,7 @@ namespace zenkit {
 		r->read(code.data(), text_size);
 
 		this->_m_text = Read::from(std::move(code));
+		this->_m_text_size = text_size;
 	}
 
 	DaedalusInstruction DaedalusScript::instruction_at(std::uint32_t address) const {
@@ -279,11 +280,7 @@ namespace zenkit {
 	}
 
 	std::uint32_t DaedalusScript::size() const noexcept {
-		auto off = _m_text->tell();
-		_m_text->seek(0, Whence::END);
-		auto size = _m_text->tell();
-		_m_text->seek(static_cast<ssize_t>(off), Whence::BEG);
-		return static_cast<uint32_t>(size);
+		return _m_text_size;
 	}
 
 	void zk_internal_escape(std::string& s) {
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 29e165f..fe36ba3 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -132,6 +132,10 @@ namespace zenkit {
 	}
 
 	bool DaedalusVm::exec() {
+		if (_m_pc >= size()) {
+			throw DaedalusVmException {"program counter out of range: " + std::to_string(_m_pc)};
+		}
+
 		auto instr = instruction_at(_m_pc);
 
 		try {
-- 
2.43.0


From 0f47124903acae5c0ad519160a83bad32307133b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:28 +0000
Subject: [PATCH 012/100] fix: string values got mixed up once more than 256 of
 them were on the stack

---
 include/zenkit/DaedalusVm.hh | 4 ++--
 src/DaedalusVm.cc            | 8 ++++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 17a81ee..3d52749 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -320,14 +320,14 @@ namespace zenkit {
 		ZKAPI void push_int(std::int32_t value);
 		ZKAPI void push_float(float value);
 		ZKAPI void push_instance(std::shared_ptr<DaedalusInstance> value);
-		ZKAPI void push_reference(DaedalusSymbol* value, std::uint8_t index = 0);
+		ZKAPI void push_reference(DaedalusSymbol* value, std::uint16_t index = 0);
 		ZKAPI void push_string(std::string_view value);
 
 		[[nodiscard]] ZKAPI std::int32_t pop_int();
 		[[nodiscard]] ZKAPI float pop_float();
 		[[nodiscard]] ZKAPI std::shared_ptr<DaedalusInstance> pop_instance();
 		[[nodiscard]] ZKAPI std::string const& pop_string();
-		[[nodiscard]] ZKAPI std::tuple<DaedalusSymbol*, std::uint8_t, std::shared_ptr<DaedalusInstance>>
+		[[nodiscard]] ZKAPI std::tuple<DaedalusSymbol*, std::uint16_t, std::shared_ptr<DaedalusInstance>>
 		pop_reference();
 		[[nodiscard]] ZKAPI bool top_is_reference() const;
 
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index fe36ba3..c6a48bd 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -660,7 +660,7 @@ namespace zenkit {
 		_m_stack[_m_stack_ptr++] = {nullptr, false, value};
 	}
 
-	void DaedalusVm::push_reference(DaedalusSymbol* value, std::uint8_t index) {
+	void DaedalusVm::push_reference(DaedalusSymbol* value, std::uint16_t index) {
 		if (_m_stack_ptr == stack_size) {
 			throw DaedalusVmException {"stack overflow"};
 		}
@@ -669,6 +669,10 @@ namespace zenkit {
 	}
 
 	void DaedalusVm::push_string(std::string_view value) {
+		if (_m_stack_ptr == stack_size) {
+			throw DaedalusVmException {"stack overflow"};
+		}
+
 		// We need to push strings without an explicitly attached variable to a
 		// virtual string container variable.
 		auto index = this->get_free_string();
@@ -738,7 +742,7 @@ namespace zenkit {
 		throw DaedalusVmException {"tried to pop_float but frame does not contain a float."};
 	}
 
-	std::tuple<DaedalusSymbol*, std::uint8_t, std::shared_ptr<DaedalusInstance>> DaedalusVm::pop_reference() {
+	std::tuple<DaedalusSymbol*, std::uint16_t, std::shared_ptr<DaedalusInstance>> DaedalusVm::pop_reference() {
 		if (_m_stack_ptr == 0) {
 			throw DaedalusVmException {"popping reference from empty stack"};
 		}
-- 
2.43.0


From 5d675cc1e659ee5989518024fba27b8ad6ec8dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:39:28 +0000
Subject: [PATCH 013/100] fix: failed calls left stale call frames, stack
 values and contexts behind

---
 include/zenkit/DaedalusVm.hh | 40 ++++++++++++---
 src/DaedalusVm.cc            | 98 ++++++++++++++++++++++++++++--------
 2 files changed, 110 insertions(+), 28 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 3d52749..aba4bed 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -145,16 +145,23 @@ namespace zenkit {
 				check_call_return_type<R>(sym);
 			}
 
-			if constexpr (sizeof...(P) > 0) {
-				push_call_parameters<0, P...>(params, args...);
-			}
+			auto stack_ptr = _m_stack_ptr;
+			try {
+				if constexpr (sizeof...(P) > 0) {
+					push_call_parameters<0, P...>(params, args...);
+				}
 
-			unsafe_call(sym);
+				unsafe_call(sym);
+			} catch (...) {
+				// Don't leave any arguments or return values behind.
+				drop_values(stack_ptr);
+				throw;
+			}
 
 			if constexpr (std::same_as<R, IgnoreReturnValue>) {
-				if (sym->has_return()) {
+				if (sym->has_return() && _m_stack_ptr > 0) {
 					// Make sure to still pop the return value off of the stack.
-					_m_stack_ptr--;
+					drop_values(_m_stack_ptr - 1);
 				}
 
 				return {};
@@ -221,7 +228,15 @@ namespace zenkit {
 
 			if (_m_self_sym) _m_self_sym->set_instance(_m_instance);
 
-			unsafe_call(sym);
+			auto stack_ptr = _m_stack_ptr;
+			try {
+				unsafe_call(sym);
+			} catch (...) {
+				drop_values(stack_ptr);
+				_m_instance = old_instance;
+				if (_m_self_sym) _m_self_sym->set_instance(old_self_instance);
+				throw;
+			}
 
 			// reset the VM state
 			_m_instance = old_instance;
@@ -718,6 +733,17 @@ namespace zenkit {
 		/// call stack entry refers to was called.
 		ZKINT void pop_call();
 
+		/// \brief Abandons all calls down to and including the one at \p depth because of an error.
+		///
+		/// The arguments and temporary values of the call are dropped and replaced by a default return value (if the
+		/// function has one). Then, the interpreter's state is restored like #pop_call does.
+		///
+		/// \param depth The number of call stack frames including the one to abandon.
+		ZKINT void unwind_call(std::size_t depth);
+
+		/// \brief Drops values from the stack until only \p size of them are left.
+		ZKAPI void drop_values(std::uint32_t size);
+
 		/// \brief Pushes a function local variables onto the call stack.
 		///
 		/// Part of #push_call implementation
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index c6a48bd..426a986 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -36,7 +36,11 @@ namespace zenkit {
 		~StackGuard() {
 			if (_m_inhibited) return;
 
-			StackGuard::fix(_m_machine, _m_type);
+			try {
+				StackGuard::fix(_m_machine, _m_type);
+			} catch (DaedalusVmException const&) {
+				// The stack is full. Since there already is an exception in flight, we can't do anything about that.
+			}
 		}
 
 		/// \brief Inhibits this guard.
@@ -110,11 +114,18 @@ namespace zenkit {
 
 	void DaedalusVm::unsafe_call(DaedalusSymbol const* sym) {
 		push_call(sym);
-		jump(sym->address());
+		auto depth = _m_call_stack.size();
 
-		// execute until an op_return is reached
-		while (exec())
-			;
+		try {
+			jump(sym->address());
+
+			// execute until an op_return is reached
+			while (exec())
+				;
+		} catch (...) {
+			unwind_call(depth);
+			throw;
+		}
 
 		pop_call();
 	}
@@ -242,18 +253,29 @@ namespace zenkit {
 			case DaedalusOpcode::BL: {
 				// Check if the function is overridden and if it is, call the resulting external.
 				sym = find_symbol_by_address(instr.address);
+				if (sym == nullptr) {
+					throw DaedalusVmException {"bl: no symbol found for address " + std::to_string(instr.address)};
+				}
+
 				if (auto cb = _m_function_overrides.find(instr.address); cb != _m_function_overrides.end()) {
 					// Guard against exceptions during external invocation.
 					StackGuard guard {this, sym->rtype()};
-					// Call maybe naked.
-					cb->second(*this);
+					auto depth = _m_call_stack.size();
+
+					try {
+						// Call maybe naked.
+						cb->second(*this);
+					} catch (...) {
+						if (_m_call_stack.size() > depth) {
+							unwind_call(depth + 1);
+							guard.inhibit();
+						}
+						throw;
+					}
+
 					// The stack is left intact.
 					guard.inhibit();
 				} else {
-					if (sym == nullptr) {
-						throw DaedalusVmException {"bl: no symbol found for address " + std::to_string(instr.address)};
-					}
-
 					unsafe_call(sym);
 				}
 
@@ -280,11 +302,17 @@ namespace zenkit {
 				}
 
 				push_call(sym);
-				cb->second(*this);
-				pop_call();
-
-				// The stack is left intact.
 				guard.inhibit();
+				auto depth = _m_call_stack.size();
+
+				try {
+					cb->second(*this);
+				} catch (...) {
+					unwind_call(depth);
+					throw;
+				}
+
+				pop_call();
 				break;
 			}
 			case DaedalusOpcode::PUSHI:
@@ -467,8 +495,36 @@ namespace zenkit {
 		if (sym->has_local_variables_enabled()) {
 			push_local_variables(sym);
 		}
-		auto var_count = this->find_parameters_for_function(sym).size();
-		_m_call_stack.push_back({sym, _m_pc, _m_stack_ptr - static_cast<uint32_t>(var_count), _m_instance});
+		auto var_count = static_cast<uint32_t>(this->find_parameters_for_function(sym).size());
+		_m_call_stack.push_back({sym, _m_pc, _m_stack_ptr > var_count ? _m_stack_ptr - var_count : 0, _m_instance});
+	}
+
+	void DaedalusVm::drop_values(std::uint32_t size) {
+		while (_m_stack_ptr > size) {
+			DaedalusStackFrame v = std::move(_m_stack[--_m_stack_ptr]);
+
+			if (v.reference && std::get<DaedalusSymbol*>(v.value) == _m_temporary_strings) {
+				this->mark_free_string(v.index);
+			}
+		}
+	}
+
+	void DaedalusVm::unwind_call(std::size_t depth) {
+		_m_call_stack.resize(depth);
+		auto call = _m_call_stack.back();
+
+		drop_values(call.stack_ptr);
+		if (call.function->has_return() && _m_stack_ptr < stack_size) {
+			StackGuard::fix(this, call.function->rtype());
+		}
+
+		if (call.function->has_local_variables_enabled()) {
+			pop_local_variables(call.function);
+		}
+
+		_m_pc = call.program_counter;
+		_m_instance = call.context;
+		_m_call_stack.pop_back();
 	}
 
 	void DaedalusVm::pop_call() {
@@ -478,10 +534,10 @@ namespace zenkit {
 		if (!call.function->has_return()) {
 			// No special logic needed, there are supposed to be no more stack frames for
 			// this function, so just reset the stack for the caller.
-			_m_stack_ptr = call.stack_ptr;
+			drop_values(call.stack_ptr);
 		} else {
-			auto remaining_locals = _m_stack_ptr - call.stack_ptr;
-			if (remaining_locals == 0) {
+			auto remaining_locals = static_cast<std::int64_t>(_m_stack_ptr) - call.stack_ptr;
+			if (remaining_locals <= 0) {
 				// The function is supposed to have a return value, but it does not seem to have one.
 				// To fix this, we just insert a default value (either 0, "" or NULL).
 				StackGuard::fix(this, call.function->rtype());
@@ -489,7 +545,7 @@ namespace zenkit {
 				// Now we have too many items left on the stack. Remove all of them, except the topmost one,
 				// since that one is supposed to be the return value of the function.
 				DaedalusStackFrame frame = _m_stack[--_m_stack_ptr];
-				_m_stack_ptr = call.stack_ptr;
+				drop_values(call.stack_ptr);
 				_m_stack[_m_stack_ptr++] = std::move(frame);
 			}
 			// else {
-- 
2.43.0


From f01bb284dadfb79c7d453d700f8a8c7b128e588b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:03 +0000
Subject: [PATCH 014/100] fix: the default external left arguments on the stack
 or returned twice

---
 src/DaedalusVm.cc | 31 ++++++++++++-------------------
 1 file changed, 12 insertions(+), 19 deletions(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 426a986..b763ee6 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -878,29 +878,22 @@ namespace zenkit {
 	void DaedalusVm::register_default_external(std::function<void(DaedalusSymbol const&)> const& callback) {
 		_m_default_external = [this, callback](DaedalusVm& v, DaedalusSymbol const& sym) {
 			// pop all parameters from the stack
-			auto params = find_parameters_for_function(&sym);
-			for (int i = static_cast<int>(params.size()) - 1; i >= 0; --i) {
-				auto& par = params[static_cast<unsigned>(i)];
-				if (par.type() == DaedalusDataType::INT)
-					(void) v.pop_int();
-				else if (par.type() == DaedalusDataType::FLOAT)
-					(void) v.pop_float();
-				else if (par.type() == DaedalusDataType::INSTANCE || par.type() == DaedalusDataType::STRING)
-					(void) v.pop_reference();
-			}
+			auto count = static_cast<std::uint32_t>(find_parameters_for_function(&sym).size());
+			v.drop_values(v._m_stack_ptr > count ? v._m_stack_ptr - count : 0);
 
+			// the stack without a return value
+			auto base = v._m_stack_ptr;
 			if (sym.has_return()) {
-				if (sym.rtype() == DaedalusDataType::FLOAT)
-					v.push_float(0.0f);
-				else if (sym.rtype() == DaedalusDataType::INT)
-					v.push_int(0);
-				else if (sym.rtype() == DaedalusDataType::STRING)
-					v.push_string("");
-				else if (sym.rtype() == DaedalusDataType::INSTANCE)
-					v.push_instance(nullptr);
+				StackGuard::fix(&v, sym.rtype());
 			}
 
-			callback(sym);
+			try {
+				callback(sym);
+			} catch (...) {
+				// The VM itself provides a return value if calling the external fails.
+				v.drop_values(base);
+				throw;
+			}
 		};
 	}
 
-- 
2.43.0


From d00935dd9d15058b96f4169514dfe94b4c361fc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:03 +0000
Subject: [PATCH 015/100] fix: members were accessed in the memory of opaque
 instances of other classes

---
 include/zenkit/DaedalusScript.hh | 10 ++++++++--
 src/DaedalusScript.cc            | 14 +++++++++++++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/include/zenkit/DaedalusScript.hh b/include/zenkit/DaedalusScript.hh
index 626f7af..23dbc0e 100644
--- a/include/zenkit/DaedalusScript.hh
+++ b/include/zenkit/DaedalusScript.hh
@@ -328,6 +328,9 @@ namespace zenkit {
 		template <typename T, typename... Args>
 		ZKINT T* construct_at(size_t offset, Args&&... args);
 
+		friend class DaedalusSymbol;
+
+		std::uint32_t _m_class;
 		std::unique_ptr<std::uint8_t[]> _m_storage;
 		std::vector<std::string*> _m_strings;
 	};
@@ -686,7 +689,7 @@ namespace zenkit {
 		template <typename T>
 		T const* get_member_ptr(std::uint16_t index, DaedalusInstance const* context) const {
 			if (!_m_registered_to) throw DaedalusUnboundMemberAccess(this);
-			if (*_m_registered_to != *context->_m_type) throw DaedalusIllegalContextType {this, *context->_m_type};
+			check_context(context);
 
 			auto data_ptr = context->data();
 			std::uint32_t target_offset = offset_as_member() + index * sizeof(T);
@@ -696,7 +699,7 @@ namespace zenkit {
 		template <typename T>
 		T* get_member_ptr(std::uint16_t index, DaedalusInstance* context) {
 			if (!_m_registered_to) throw DaedalusUnboundMemberAccess(this);
-			if (*_m_registered_to != *context->_m_type) throw DaedalusIllegalContextType {this, *context->_m_type};
+			check_context(context);
 
 			auto data_ptr = context->data();
 			std::uint32_t target_offset = offset_as_member() + index * sizeof(T);
@@ -704,6 +707,9 @@ namespace zenkit {
 		}
 
 	private:
+		/// \brief Validates that this member can be accessed in the given context.
+		ZKAPI void check_context(DaedalusInstance const* context) const;
+
 		friend class DaedalusScript;
 		std::string _m_name;
 		std::variant<std::unique_ptr<std::int32_t[]>,
diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index 2840067..dfa831d 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -569,6 +569,17 @@ namespace zenkit {
 		std::get<std::shared_ptr<DaedalusInstance>>(_m_value) = inst;
 	}
 
+	void DaedalusSymbol::check_context(DaedalusInstance const* context) const {
+		if (context->_m_type == nullptr) throw DaedalusIllegalContextType {this, typeid(DaedalusInstance)};
+		if (*_m_registered_to != *context->_m_type) throw DaedalusIllegalContextType {this, *context->_m_type};
+
+		// All opaque instances share one C++ class so we also need to make sure that the memory layout is the right one.
+		if (*_m_registered_to == typeid(DaedalusOpaqueInstance)) {
+			auto cls = static_cast<DaedalusOpaqueInstance const*>(context)->_m_class;
+			if (cls != static_cast<std::uint32_t>(_m_parent)) throw DaedalusIllegalInstanceAccess {this, cls};
+		}
+	}
+
 	void DaedalusSymbol::grow(uint32_t n) {
 		auto& value = this->_m_value;
 
@@ -617,7 +628,8 @@ namespace zenkit {
 	}
 
 	DaedalusOpaqueInstance::DaedalusOpaqueInstance(DaedalusSymbol const& sym,
-	                                               std::vector<DaedalusSymbol*> const& members) {
+	                                               std::vector<DaedalusSymbol*> const& members)
+	    : _m_class(sym.index()) {
 		size_t str_count = 0;
 		for (auto* member : members) {
 			if (member->type() != DaedalusDataType::STRING) continue;
-- 
2.43.0


From 42d0f7fb63db71af9e00819180ef645e558cb036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:03 +0000
Subject: [PATCH 016/100] fix: reading float members truncated the index to
 eight bits

---
 src/DaedalusScript.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index dfa831d..c38580a 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -448,7 +448,7 @@ namespace zenkit {
 				return reinterpret_cast<DaedalusTransientInstance const&>(*context).get_float(*this, index);
 			}
 
-			return *get_member_ptr<float>(static_cast<uint8_t>(index), context);
+			return *get_member_ptr<float>(index, context);
 		}
 
 		return std::get<std::unique_ptr<float[]>>(_m_value)[index];
-- 
2.43.0


From 73570aa90beb88295a155e5720c559c66a2e6e54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:03 +0000
Subject: [PATCH 017/100] fix: initialising an instance of an unregistered
 class crashed

---
 include/zenkit/DaedalusScript.hh | 5 +++++
 include/zenkit/DaedalusVm.hh     | 4 ++--
 src/DaedalusVm.cc                | 8 ++++++++
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/zenkit/DaedalusScript.hh b/include/zenkit/DaedalusScript.hh
index 23dbc0e..9f51172 100644
--- a/include/zenkit/DaedalusScript.hh
+++ b/include/zenkit/DaedalusScript.hh
@@ -679,6 +679,11 @@ namespace zenkit {
 			return _m_class_size;
 		}
 
+		[[nodiscard]] ZKAPI bool is_registered() const noexcept {
+			return _m_registered_to != nullptr;
+		}
+
+		/// \return The C++ class this symbol is registered to. Only valid if it #is_registered.
 		[[nodiscard]] ZKAPI std::type_info const& registered_to() const noexcept {
 			return *_m_registered_to;
 		}
diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index aba4bed..5dac522 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -317,11 +317,11 @@ namespace zenkit {
 				                           ": parent class not found (did you try to initialize $INSTANCE_HELP?)"};
 			}
 
-			while (parent->type() != DaedalusDataType::CLASS) {
+			while (parent != nullptr && parent->type() != DaedalusDataType::CLASS) {
 				parent = find_symbol_by_index(parent->parent());
 			}
 
-			if (parent->registered_to() != typeid(_instance_t)) {
+			if (parent == nullptr || !parent->is_registered() || parent->registered_to() != typeid(_instance_t)) {
 				throw DaedalusVmException {"Cannot init " + sym->name() +
 				                           ": parent class is not registered or is "
 				                           "registered to a different instance class"};
diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index b763ee6..826ad62 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -96,6 +96,10 @@ namespace zenkit {
 	}
 
 	std::shared_ptr<DaedalusInstance> DaedalusVm::init_opaque_instance(DaedalusSymbol* sym) {
+		if (sym == nullptr) {
+			throw DaedalusVmException {"Cannot init instance: not found"};
+		}
+
 		auto cls = sym;
 		while (cls != nullptr && cls->type() != DaedalusDataType::CLASS) {
 			cls = find_symbol_by_index(cls->parent());
@@ -106,6 +110,10 @@ namespace zenkit {
 			                           ": parent class not found (did you try to initialize $INSTANCE_HELP?)"};
 		}
 
+		if (!cls->is_registered() || cls->registered_to() != typeid(DaedalusOpaqueInstance)) {
+			throw DaedalusVmException {"Cannot init " + sym->name() + ": parent class is not registered as opaque"};
+		}
+
 		// create the instance
 		auto inst = std::make_shared<DaedalusOpaqueInstance>(*cls, find_class_members(*cls));
 		init_instance(inst, sym);
-- 
2.43.0


From f9c09cd84ba1e5b5ad30040e57be5434a979f418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:03 +0000
Subject: [PATCH 018/100] fix: passing an unbound instance to the host
 dereferenced a null pointer

---
 include/zenkit/DaedalusVm.hh | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 5dac522..1493f8d 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -816,8 +816,8 @@ namespace zenkit {
 					auto& expected = typeid(typename T::element_type);
 
 					if (!r->_m_type) {
-						throw DaedalusVmException {"Popping instance of unregistered type: " +
-						                           std::string {r->_m_type->name()} + ", expected " + expected.name()};
+						throw DaedalusVmException {"Popping instance of unregistered type, expected " +
+						                           std::string {expected.name()}};
 					}
 
 					if (*r->_m_type != expected) {
@@ -834,8 +834,8 @@ namespace zenkit {
 					auto& expected = typeid(std::remove_pointer_t<T>);
 
 					if (!r->_m_type) {
-						throw DaedalusVmException {"Popping instance of unregistered type: " +
-						                           std::string {r->_m_type->name()} + ", expected " + expected.name()};
+						throw DaedalusVmException {"Popping instance of unregistered type, expected " +
+						                           std::string {expected.name()}};
 					}
 
 					if (*r->_m_type != expected) {
@@ -996,8 +996,8 @@ namespace zenkit {
 					auto& expected = typeid(typename R::element_type);
 
 					if (!r->_m_type) {
-						throw DaedalusVmException {"Popping instance of unregistered type: " +
-						                           std::string {r->_m_type->name()} + ", expected " + expected.name()};
+						throw DaedalusVmException {"Popping instance of unregistered type, expected " +
+						                           std::string {expected.name()}};
 					}
 
 					if (*r->_m_type != expected) {
-- 
2.43.0


From cb4cbea68e98c2a424afc1db33363854220516f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:33 +0000
Subject: [PATCH 019/100] fix: saving local variables overwrote arguments of
 recursive calls

---
 src/DaedalusVm.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 826ad62..f447fb0 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -621,8 +621,8 @@ namespace zenkit {
 		// Move function arguments further back, since we're currently at the call instruction and the
 		// arguments for the next call have already been pushed.
 		_m_stack_ptr -= params.size();
-		for (size_t i = 0; i < params.size(); ++i) {
-			_m_stack[_m_stack_ptr + locals_size + i] = std::move(_m_stack[_m_stack_ptr + i]);
+		for (size_t i = locals_size == 0 ? 0 : params.size(); i > 0; --i) {
+			_m_stack[_m_stack_ptr + locals_size + i - 1] = std::move(_m_stack[_m_stack_ptr + i - 1]);
 		}
 
 		for (auto& l : locals) {
-- 
2.43.0


From 2a1dd556e746fd877d5ca8ae229f1da69b2857b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:33 +0000
Subject: [PATCH 020/100] fix: recursive functions returned the local variables
 of their caller

---
 src/DaedalusVm.cc | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index f447fb0..a74c185 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -670,12 +670,33 @@ namespace zenkit {
 			return;
 		}
 
+		auto locals = this->find_locals_for_function(sym);
+
 		DaedalusStackFrame ret;
+		std::string ret_string;
+		bool ret_is_string = false;
+
 		if (sym->has_return()) {
 			ret = std::move(_m_stack[--_m_stack_ptr]);
+
+			// If one of the local variables is being returned, its value has to be retrieved before it is restored.
+			auto* ref = ret.reference ? std::get<DaedalusSymbol*>(ret.value) : nullptr;
+			for (auto& l : locals) {
+				if (&l != ref || l.count() <= ret.index) continue;
+
+				if (l.type() == DaedalusDataType::FLOAT) {
+					ret = {nullptr, false, l.get_float(ret.index)};
+				} else if (l.type() == DaedalusDataType::INSTANCE) {
+					ret = {nullptr, false, l.get_instance()};
+				} else if (l.type() == DaedalusDataType::STRING) {
+					ret_string = l.get_string(ret.index);
+					ret_is_string = true;
+				} else {
+					ret = {nullptr, false, l.get_int(ret.index)};
+				}
+			}
 		}
 
-		auto locals = this->find_locals_for_function(sym);
 		for (size_t i = locals.size(); i > 0;) {
 			--i;
 			auto& l = locals[i];
@@ -711,7 +732,9 @@ namespace zenkit {
 			}
 		}
 
-		if (sym->has_return()) {
+		if (ret_is_string) {
+			push_string(ret_string);
+		} else if (sym->has_return()) {
 			_m_stack[_m_stack_ptr++] = std::move(ret);
 		}
 	}
-- 
2.43.0


From b8069ee6015dcd69c8c69c61f934cc3decf129f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:33 +0000
Subject: [PATCH 021/100] fix: returning from a function with a full stack
 failed half-way

---
 src/DaedalusVm.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index a74c185..2d7511c 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -536,7 +536,7 @@ namespace zenkit {
 	}
 
 	void DaedalusVm::pop_call() {
-		auto const& call = _m_call_stack.back();
+		auto call = _m_call_stack.back();
 
 		// First, try to fix up the stack.
 		if (!call.function->has_return()) {
@@ -548,7 +548,7 @@ namespace zenkit {
 			if (remaining_locals <= 0) {
 				// The function is supposed to have a return value, but it does not seem to have one.
 				// To fix this, we just insert a default value (either 0, "" or NULL).
-				StackGuard::fix(this, call.function->rtype());
+				if (_m_stack_ptr < stack_size) StackGuard::fix(this, call.function->rtype());
 			} else if (remaining_locals > 1) {
 				// Now we have too many items left on the stack. Remove all of them, except the topmost one,
 				// since that one is supposed to be the return value of the function.
-- 
2.43.0


From f126acc5aa45a49e0235694f6a982ef5fcb93b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:33 +0000
Subject: [PATCH 022/100] fix: printing the stack trace of a failed script
 could fail or crash itself

---
 src/DaedalusVm.cc | 58 ++++++++++++++++++++++++++---------------------
 1 file changed, 32 insertions(+), 26 deletions(-)

diff --git a/src/DaedalusVm.cc b/src/DaedalusVm.cc
index 2d7511c..9860856 100644
--- a/src/DaedalusVm.cc
+++ b/src/DaedalusVm.cc
@@ -969,32 +969,38 @@ namespace zenkit {
 				auto ref = std::get<DaedalusSymbol*>(v.value);
 				std::string value;
 
-				switch (ref->type()) {
-				case DaedalusDataType::FLOAT:
-					value = std::to_string(ref->get_float(v.index, _m_instance.get()));
-					break;
-				case DaedalusDataType::INT:
-					value = std::to_string(ref->get_int(v.index, _m_instance.get()));
-					break;
-				case DaedalusDataType::STRING:
-					value = "'" + ref->get_string(v.index, _m_instance.get()) + "'";
-					break;
-				case DaedalusDataType::FUNCTION: {
-					auto index = ref->get_int(v.index, _m_instance.get());
-					auto sym = find_symbol_by_index(static_cast<uint32_t>(index));
-					value = "&" + sym->name();
-					break;
-				}
-				case DaedalusDataType::INSTANCE: {
-					if (auto& inst = ref->get_instance(); inst != nullptr) {
-						value = "<instance of '" + std::string(inst->_m_type->name()) + "'>";
-					} else {
-						value = "NULL";
+				try {
+					switch (ref->type()) {
+					case DaedalusDataType::FLOAT:
+						value = std::to_string(ref->get_float(v.index, v.context.get()));
+						break;
+					case DaedalusDataType::INT:
+						value = std::to_string(ref->get_int(v.index, v.context.get()));
+						break;
+					case DaedalusDataType::STRING:
+						value = "'" + ref->get_string(v.index, v.context.get()) + "'";
+						break;
+					case DaedalusDataType::FUNCTION: {
+						auto index = ref->get_int(v.index, v.context.get());
+						auto sym = find_symbol_by_index(static_cast<uint32_t>(index));
+						value = sym != nullptr ? "&" + sym->name() : "<invalid function>";
+						break;
 					}
-					break;
-				}
-				default:
-					value = "<invalid stack frame>";
+					case DaedalusDataType::INSTANCE: {
+						if (auto& inst = ref->get_instance(); inst == nullptr) {
+							value = "NULL";
+						} else if (inst->_m_type == nullptr) {
+							value = "<unbound instance>";
+						} else {
+							value = "<instance of '" + std::string(inst->_m_type->name()) + "'>";
+						}
+						break;
+					}
+					default:
+						value = "<invalid stack frame>";
+					}
+				} catch (DaedalusScriptError const&) {
+					value = "<inaccessible>";
 				}
 
 				ZKLOGE("DaedalusVm",
@@ -1015,7 +1021,7 @@ namespace zenkit {
 						ZKLOGE("DaedalusVm",
 						       "%d: [IMMEDIATE INSTANCE] = <instance of '%s'>",
 						       tmp_stack_ptr,
-						       inst->_m_type->name());
+						       inst->_m_type != nullptr ? inst->_m_type->name() : "<unbound>");
 					}
 				}
 			}
-- 
2.43.0


From ff891224f829409ab6172a30d140b5e60670ffda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:40:48 +0000
Subject: [PATCH 023/100] fix: calling a function that returns a function did
 not return anything

---
 include/zenkit/DaedalusVm.hh | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/zenkit/DaedalusVm.hh b/include/zenkit/DaedalusVm.hh
index 1493f8d..95256ee 100644
--- a/include/zenkit/DaedalusVm.hh
+++ b/include/zenkit/DaedalusVm.hh
@@ -1013,6 +1013,8 @@ namespace zenkit {
 				return pop_int();
 			} else if constexpr (std::same_as<std::string, R>) {
 				return pop_string();
+			} else if constexpr (std::same_as<DaedalusFunction, R>) {
+				return pop_value_for_external<DaedalusFunction>();
 			}
 		}
 
-- 
2.43.0


From 92b6f89aca4da2df2f716f3dc1a2cbbac8aad8b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:09 +0000
Subject: [PATCH 024/100] fix: locals of a function at the end of the symbol
 table were not found

---
 src/DaedalusScript.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index c38580a..e0788c3 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -208,7 +208,8 @@ namespace zenkit {
 			}
 			return std::span<DaedalusSymbol>(_m_symbols.begin() + first, _m_symbols.begin() + i);
 		}
-		return {};
+		if (first >= _m_symbols.size()) return {};
+		return std::span<DaedalusSymbol>(_m_symbols.begin() + first, _m_symbols.end());
 	}
 
 	std::span<DaedalusSymbol const> DaedalusScript::find_parameters_for_function(DaedalusSymbol const* parent) const {
-- 
2.43.0


From f9244479c39e120d18d33976146e6a02f90a9489 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:09 +0000
Subject: [PATCH 025/100] fix: string constants with certain parents threw off
 the symbol table

---
 src/DaedalusScript.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/DaedalusScript.cc b/src/DaedalusScript.cc
index e0788c3..1f23647 100644
--- a/src/DaedalusScript.cc
+++ b/src/DaedalusScript.cc
@@ -401,7 +401,6 @@ namespace zenkit {
 			if (byte == 0) {
 				// We didn't find any match.
 				r->seek(static_cast<ssize_t>(savepoint), Whence::BEG);
-				this->_m_parent = r->read_int();
 				ZKLOGW("DaedalusSymbol", "Heuristic: No valid endpoint found. Aborting search. Issues might arise.");
 			}
 		}
-- 
2.43.0


From fa9d21707bf8eca92d2303b94c5eaf2c73de7913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:25 +0000
Subject: [PATCH 026/100] fix: large negative integers were garbled in ASCII
 archives

---
 src/archive/ArchiveAscii.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index baa3e39..da55daa 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -303,7 +303,7 @@ namespace zenkit {
 	}
 
 	void WriteArchiveAscii::write_int(std::string_view name, std::int32_t v) {
-		std::array<char, std::numeric_limits<int32_t>::digits10 + 1> buf {};
+		std::array<char, std::numeric_limits<int32_t>::digits10 + 2> buf {};
 		this->write_entry(name, "int", intosv(buf, v));
 	}
 
-- 
2.43.0


From 3a5993604533fad5b2c5b70b356a284cc50a5d7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:25 +0000
Subject: [PATCH 027/100] fix: bytes and words in ASCII archives could not be
 read back

---
 src/archive/ArchiveAscii.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index da55daa..3388a67 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -313,12 +313,12 @@ namespace zenkit {
 
 	void WriteArchiveAscii::write_byte(std::string_view name, std::uint8_t v) {
 		std::array<char, std::numeric_limits<uint8_t>::digits10 + 1> buf {};
-		this->write_entry(name, "byte", intosv(buf, v));
+		this->write_entry(name, "int", intosv(buf, v));
 	}
 
 	void WriteArchiveAscii::write_word(std::string_view name, std::uint16_t v) {
 		std::array<char, std::numeric_limits<uint16_t>::digits10 + 1> buf {};
-		this->write_entry(name, "word", intosv(buf, v));
+		this->write_entry(name, "int", intosv(buf, v));
 	}
 
 	void WriteArchiveAscii::write_enum(std::string_view name, std::uint32_t v) {
-- 
2.43.0


From a201a0fe659f3654d942348013f6e723537cf1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:25 +0000
Subject: [PATCH 028/100] fix: matrices in ASCII archives could not be read
 back

---
 src/archive/ArchiveAscii.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index 3388a67..0f242b0 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -360,7 +360,7 @@ namespace zenkit {
 
 	void WriteArchiveAscii::write_mat3x3(std::string_view name, Mat3 const& v) {
 		auto vT = v.transpose();
-		this->write_raw_float(name, vT.pointer(), 9);
+		this->write_raw(name, reinterpret_cast<std::byte const*>(vT.pointer()), 9 * sizeof(float));
 	}
 
 	void WriteArchiveAscii::write_raw(std::string_view name, std::vector<std::byte> const& v) {
-- 
2.43.0


From c81c4277de4f4c1aeca0c3997343223d78fcf1f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:25 +0000
Subject: [PATCH 029/100] fix: small bytes in raw blocks were garbled in ASCII
 archives

---
 src/archive/ArchiveAscii.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index 0f242b0..3d982a8 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -373,8 +373,8 @@ namespace zenkit {
 		this->_m_write->write_string("=raw:");
 
 		std::array<char, 3> buf {};
-		buf[2] = '\0';
 		for (auto i = 0u; i < length; ++i) {
+			buf.fill('\0');
 			std::to_chars(buf.data(), buf.data() + buf.size(), static_cast<unsigned char>(v[i]), 16);
 
 			if (buf[1] == '\0') {
-- 
2.43.0


From f82067a9896ae505e04c91368b26f14a3099939a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:25 +0000
Subject: [PATCH 030/100] fix: looking for the end of an object outside of any
 object crashed

---
 src/archive/ArchiveBinary.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/archive/ArchiveBinary.cc b/src/archive/ArchiveBinary.cc
index 6175abc..9cff1e2 100644
--- a/src/archive/ArchiveBinary.cc
+++ b/src/archive/ArchiveBinary.cc
@@ -41,7 +41,7 @@ namespace zenkit {
 	}
 
 	bool ReadArchiveBinary::read_object_end() {
-		if (read->tell() == _m_object_end.top()) {
+		if (!_m_object_end.empty() && read->tell() == _m_object_end.top()) {
 			_m_object_end.pop();
 			return true;
 		}
-- 
2.43.0


From 617e7ed1cb506d55a2204ea4ea33a88e70f03a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:25 +0000
Subject: [PATCH 031/100] fix: strings that look like object markers broke
 skipping in bin-safe archives

---
 src/archive/ArchiveBinsafe.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/archive/ArchiveBinsafe.cc b/src/archive/ArchiveBinsafe.cc
index 604a890..274b433 100644
--- a/src/archive/ArchiveBinsafe.cc
+++ b/src/archive/ArchiveBinsafe.cc
@@ -225,8 +225,12 @@ namespace zenkit {
 		case ArchiveEntryType::RAW_FLOAT:
 			read->seek(read->read_ushort(), Whence::CUR);
 			break;
-		case ArchiveEntryType::ENUM:
 		case ArchiveEntryType::HASH:
+			// The key of an entry is followed by its value.
+			(void) read->read_uint();
+			this->skip_entry();
+			break;
+		case ArchiveEntryType::ENUM:
 		case ArchiveEntryType::INTEGER:
 		case ArchiveEntryType::FLOAT:
 		case ArchiveEntryType::BOOL:
-- 
2.43.0


From 7741686a7f2332564132dbd6a31ed2b1bacd3040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:25 +0000
Subject: [PATCH 032/100] fix: object and class names were read beyond their
 end

---
 src/archive/ArchiveAscii.cc   |  2 +-
 src/archive/ArchiveBinsafe.cc | 13 +++++++++++--
 2 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index 3d982a8..dcb6707 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -263,7 +263,7 @@ namespace zenkit {
 		this->_m_write->write_char('[');
 		this->_m_write->write_string(object_name);
 		this->_m_write->write_char(' ');
-		this->_m_write->write_string(empty_class ? "%" : class_name.data());
+		this->_m_write->write_string(empty_class ? "%" : class_name);
 		this->_m_write->write_char(' ');
 		this->_m_write->write_string(intosv(buf, version));
 		this->_m_write->write_char(' ');
diff --git a/src/archive/ArchiveBinsafe.cc b/src/archive/ArchiveBinsafe.cc
index 274b433..3dba491 100644
--- a/src/archive/ArchiveBinsafe.cc
+++ b/src/archive/ArchiveBinsafe.cc
@@ -290,8 +290,10 @@ namespace zenkit {
 		char buf[6 + 127 * 2 + 10 * 2];
 		auto n = snprintf(buf,
 		                  sizeof buf - 1,
-		                  "[%.127s %.127s %d %d]",
+		                  "[%.*s %.*s %d %d]",
+		                  static_cast<int>(std::min<size_t>(object_name.size(), 127)),
 		                  object_name.data(),
+		                  class_name.empty() ? 1 : static_cast<int>(std::min<size_t>(class_name.size(), 127)),
 		                  class_name.empty() ? "%" : class_name.data(),
 		                  version,
 		                  empty_class ? 0 : _m_index);
@@ -312,7 +314,14 @@ namespace zenkit {
 		this->_m_write->write_ubyte(static_cast<uint8_t>(ArchiveEntryType::STRING));
 
 		char buf[6 + 127 * 2 + 10 * 2];
-		auto n = snprintf(buf, sizeof buf - 1, "[%.127s %.127s %d %d]", object_name.data(), "\xA7", 0, index);
+		auto n = snprintf(buf,
+		                  sizeof buf - 1,
+		                  "[%.*s %s %d %d]",
+		                  static_cast<int>(std::min<size_t>(object_name.size(), 127)),
+		                  object_name.data(),
+		                  "\xA7",
+		                  0,
+		                  index);
 
 		this->_m_write->write_ushort(n);
 		this->_m_write->write_string(buf);
-- 
2.43.0


From 621b3c57d09d1dfdc6f15c8249fa1fde149a96ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:25 +0000
Subject: [PATCH 033/100] fix: archives were damaged if the date got longer or
 shorter while writing

---
 src/archive/ArchiveAscii.cc   | 14 +++++++++-----
 src/archive/ArchiveAscii.hh   |  1 +
 src/archive/ArchiveBinary.cc  | 14 +++++++++-----
 src/archive/ArchiveBinary.hh  |  1 +
 src/archive/ArchiveBinsafe.cc | 16 ++++++++++------
 src/archive/ArchiveBinsafe.hh |  1 +
 6 files changed, 31 insertions(+), 16 deletions(-)

diff --git a/src/archive/ArchiveAscii.cc b/src/archive/ArchiveAscii.cc
index dcb6707..fcba1b7 100644
--- a/src/archive/ArchiveAscii.cc
+++ b/src/archive/ArchiveAscii.cc
@@ -425,10 +425,14 @@ namespace zenkit {
 		if (username == nullptr) username = "Anonymous";
 
 		char date_buffer[20];
-		std::time_t clk;
-		std::time(&clk);
-		auto* time = std::localtime(&clk);
-		strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
+		if (this->_m_date.empty()) {
+			// The header is written again later, and must not change its length.
+			std::time_t clk;
+			std::time(&clk);
+			auto* time = std::localtime(&clk);
+			strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
+			this->_m_date = date_buffer;
+		}
 
 		this->_m_write->write_line("ZenGin Archive");
 		this->_m_write->write_line("ver 1");
@@ -436,7 +440,7 @@ namespace zenkit {
 		this->_m_write->write_line("ASCII");
 		this->_m_write->write_line(is_save_game() ? "saveGame 1" : "saveGame 0");
 		this->_m_write->write_string("date ");
-		this->_m_write->write_line(date_buffer);
+		this->_m_write->write_line(this->_m_date);
 		this->_m_write->write_string("user ");
 		this->_m_write->write_line(username);
 		this->_m_write->write_line("END");
diff --git a/src/archive/ArchiveAscii.hh b/src/archive/ArchiveAscii.hh
index 5bbc4c0..0b600a4 100644
--- a/src/archive/ArchiveAscii.hh
+++ b/src/archive/ArchiveAscii.hh
@@ -77,5 +77,6 @@ namespace zenkit {
 		std::uint32_t _m_index {0};
 		std::uint32_t _m_indent {0};
 		std::size_t _m_head;
+		std::string _m_date;
 	};
 } // namespace zenkit
diff --git a/src/archive/ArchiveBinary.cc b/src/archive/ArchiveBinary.cc
index 9cff1e2..f414f0f 100644
--- a/src/archive/ArchiveBinary.cc
+++ b/src/archive/ArchiveBinary.cc
@@ -241,10 +241,14 @@ namespace zenkit {
 		if (username == nullptr) username = "Anonymous";
 
 		char date_buffer[20];
-		std::time_t clk;
-		std::time(&clk);
-		auto* time = std::localtime(&clk);
-		strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
+		if (this->_m_date.empty()) {
+			// The header is written again later, and must not change its length.
+			std::time_t clk;
+			std::time(&clk);
+			auto* time = std::localtime(&clk);
+			strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
+			this->_m_date = date_buffer;
+		}
 
 		this->_m_write->write_line("ZenGin Archive");
 		this->_m_write->write_line("ver 1");
@@ -252,7 +256,7 @@ namespace zenkit {
 		this->_m_write->write_line("BINARY");
 		this->_m_write->write_line(is_save_game() ? "saveGame 1" : "saveGame 0");
 		this->_m_write->write_string("date ");
-		this->_m_write->write_line(date_buffer);
+		this->_m_write->write_line(this->_m_date);
 		this->_m_write->write_string("user ");
 		this->_m_write->write_line(username);
 		this->_m_write->write_line("END");
diff --git a/src/archive/ArchiveBinary.hh b/src/archive/ArchiveBinary.hh
index d09c8da..e767ec2 100644
--- a/src/archive/ArchiveBinary.hh
+++ b/src/archive/ArchiveBinary.hh
@@ -77,5 +77,6 @@ namespace zenkit {
 		std::uint32_t _m_index {0};
 		std::stack<size_t> _m_objects {};
 		std::size_t _m_head;
+		std::string _m_date;
 	};
 } // namespace zenkit
diff --git a/src/archive/ArchiveBinsafe.cc b/src/archive/ArchiveBinsafe.cc
index 3dba491..3706f22 100644
--- a/src/archive/ArchiveBinsafe.cc
+++ b/src/archive/ArchiveBinsafe.cc
@@ -418,11 +418,15 @@ namespace zenkit {
 		if (username == nullptr) username = getenv("USERNAME");
 		if (username == nullptr) username = "Anonymous";
 
-		char date_buffer[20];
-		std::time_t clk;
-		std::time(&clk);
-		auto* time = std::localtime(&clk);
-		strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
+		if (this->_m_date.empty()) {
+			// The header is written again later, and must not change its length.
+			char date_buffer[20];
+			std::time_t clk;
+			std::time(&clk);
+			auto* time = std::localtime(&clk);
+			strftime(date_buffer, 20, "%-d.%-m.%Y %H:%M:%S", time);
+			this->_m_date = date_buffer;
+		}
 
 		this->_m_write->write_line("ZenGin Archive");
 		this->_m_write->write_line("ver 1");
@@ -430,7 +434,7 @@ namespace zenkit {
 		this->_m_write->write_line("BIN_SAFE");
 		this->_m_write->write_line(is_save_game() ? "saveGame 1" : "saveGame 0");
 		this->_m_write->write_string("date ");
-		this->_m_write->write_line(date_buffer);
+		this->_m_write->write_line(this->_m_date);
 		this->_m_write->write_string("user ");
 		this->_m_write->write_line(username);
 		this->_m_write->write_line("END");
diff --git a/src/archive/ArchiveBinsafe.hh b/src/archive/ArchiveBinsafe.hh
index 3b46b53..721e24a 100644
--- a/src/archive/ArchiveBinsafe.hh
+++ b/src/archive/ArchiveBinsafe.hh
@@ -124,5 +124,6 @@ namespace zenkit {
 		std::uint32_t _m_index {0};
 		std::map<std::string, std::uint16_t, std::less<>> _m_hash_keys;
 		std::size_t _m_head;
+		std::string _m_date;
 	};
 } // namespace zenkit
-- 
2.43.0


From 43a80ff7fbe0399ce04d8b525690c964f8c0d89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:14:33 +0000
Subject: [PATCH 034/100] fix: skipping an object of a truncated ASCII archive
 never ended

---
 src/Archive.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Archive.cc b/src/Archive.cc
index 8797a87..e3c3f91 100644
--- a/src/Archive.cc
+++ b/src/Archive.cc
@@ -538,7 +538,7 @@ namespace zenkit {
 			} else {
 				skip_entry();
 			}
-		} while (level > 0);
+		} while (level > 0 && !read->eof());
 	}
 
 	std::unique_ptr<WriteArchive> WriteArchive::to(Write* w, ArchiveFormat format) {
-- 
2.43.0


From 80bbecc20bf1028e386dac783f5c2b4e970c93b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:20:59 +0000
Subject: [PATCH 035/100] fix: content starting with a line feed was swallowed
 in binary archives

---
 src/archive/ArchiveBinary.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/archive/ArchiveBinary.cc b/src/archive/ArchiveBinary.cc
index f414f0f..dffa250 100644
--- a/src/archive/ArchiveBinary.cc
+++ b/src/archive/ArchiveBinary.cc
@@ -22,9 +22,15 @@ namespace zenkit {
 			}
 		}
 
-		if (read->read_line_then_ignore("\n") != "END") {
+		if (read->read_line(false) != "END") {
 			throw ParserError {"ReadArchiveBinary", "second END missing"};
 		}
+
+		// Exactly one empty line separates the header from the content, which may well start with a line feed itself.
+		auto mark = read->tell();
+		if (read->read_char() != '\n') {
+			read->seek(static_cast<ssize_t>(mark), Whence::BEG);
+		}
 	}
 
 	bool ReadArchiveBinary::read_object_begin(ArchiveObject& obj) {
-- 
2.43.0


From a56321365f108dd6c234abae5b8de888366637f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:38 +0000
Subject: [PATCH 036/100] fix: animation mode and bias of packed objects were
 garbled

---
 src/vobs/VirtualObject.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index 6c23fd2..20a79c6 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -106,7 +106,7 @@ namespace zenkit {
 			this->physics_enabled = static_cast<bool>((bit1 & 0b000000001000000u) >> 6u);
 
 			if (version == GameVersion::GOTHIC_2) {
-				this->anim_mode = static_cast<AnimationType>(bit1 & 0b000000110000000u >> 7u);
+				this->anim_mode = static_cast<AnimationType>((bit1 & 0b000000110000000u) >> 7u);
 				this->bias = static_cast<std::int32_t>((bit1 & 0b011111000000000u) >> 9u);
 				this->ambient = static_cast<bool>((bit1 & 0b100000000000000u) >> 14u);
 
@@ -239,8 +239,8 @@ namespace zenkit {
 			}
 
 			if (version == GameVersion::GOTHIC_2) {
-				bit1 |= (static_cast<uint8_t>(this->anim_mode) & 2) << 7u;
-				bit1 |= (static_cast<uint8_t>(this->bias) & 0b11111) << 13u;
+				bit1 |= (static_cast<uint8_t>(this->anim_mode) & 0b11) << 7u;
+				bit1 |= (static_cast<uint8_t>(this->bias) & 0b11111) << 9u;
 				bit1 |= this->ambient << 14u;
 
 				pw->write_ushort(bit1);
-- 
2.43.0


From e2a275ab880cae06d71dbc9e3d68f054fdaa85b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:38 +0000
Subject: [PATCH 037/100] fix: objects with physics but without rigid body were
 saved incompletely

---
 src/vobs/VirtualObject.cc | 13 ++++---------
 1 file changed, 4 insertions(+), 9 deletions(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index 20a79c6..5d16735 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -231,12 +231,7 @@ namespace zenkit {
 			bit1 |= (!!this->ai) << 4u;
 			bit1 |= (!!this->event_manager) << 5u;
 
-			// Gothic 1 does not store rigid-body information.
-			if (version == GameVersion::GOTHIC_1) {
-				bit1 |= this->physics_enabled << 6u;
-			} else {
-				bit1 |= (this->physics_enabled && this->rigid_body) << 6u;
-			}
+			bit1 |= this->physics_enabled << 6u;
 
 			if (version == GameVersion::GOTHIC_2) {
 				bit1 |= (static_cast<uint8_t>(this->anim_mode) & 0b11) << 7u;
@@ -308,9 +303,9 @@ namespace zenkit {
 			w.write_byte("sleepMode", this->sleep_mode);
 			w.write_float("nextOnTimer", this->next_on_timer);
 
-			// Gothic 1 does not store rigid-body information.
-			if (this->physics_enabled && this->rigid_body) {
-				this->rigid_body->save(w, version);
+			// The rigid-body is expected unless physics are disabled, which only packed objects can tell.
+			if (this->physics_enabled || !pack) {
+				this->rigid_body.value_or(RigidBody {}).save(w, version);
 			}
 		}
 	}
-- 
2.43.0


From b207ef7bd1b97de867601a40ca02c06b8cbfd649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:38 +0000
Subject: [PATCH 038/100] fix: event managers were saved where they are not
 expected when loading

---
 src/vobs/VirtualObject.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index 5d16735..30d541e 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -295,7 +295,7 @@ namespace zenkit {
 			w.write_object("ai", this->ai, version);
 		}
 
-		if (this->event_manager) {
+		if (this->event_manager && pack && w.is_save_game()) {
 			w.write_object(this->event_manager, version);
 		}
 
-- 
2.43.0


From 56309eba49529dc5792e14c71737370904908ca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:38 +0000
Subject: [PATCH 039/100] fix: objects saved without packing could not be
 loaded

---
 src/vobs/VirtualObject.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index 30d541e..3a1398b 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -253,7 +253,7 @@ namespace zenkit {
 			w.write_mat3x3("trafoOSToWSRot", this->rotation);
 			w.write_vec3("trafoOSToWSPos", this->position);
 			w.write_string("vobName", this->vob_name);
-			w.write_string("visual", this->visual_name);
+			w.write_string("visual", this->visual ? this->visual->name : "");
 			w.write_bool("showVisual", this->show_visual);
 			w.write_enum("visualCamAlign", static_cast<int>(this->sprite_camera_facing_mode));
 
@@ -275,23 +275,25 @@ namespace zenkit {
 			}
 		}
 
-		if (!this->preset_name.empty()) {
+		if (pack && !this->preset_name.empty()) {
 			w.write_string("presetName", this->preset_name);
 		}
 
-		if (!this->vob_name.empty()) {
+		if (pack && !this->vob_name.empty()) {
 			w.write_string("vobName", this->vob_name);
 		}
 
-		if (this->visual && !this->visual->name.empty()) {
+		if (pack && this->visual && !this->visual->name.empty()) {
 			w.write_string("visual", this->visual->name);
 		}
 
 		if (this->visual && this->visual->type != VisualType::UNKNOWN) {
 			w.write_object("visual", this->visual, version);
+		} else if (!pack) {
+			w.write_object("visual", static_cast<Object const*>(nullptr), version);
 		}
 
-		if (this->ai) {
+		if (this->ai || !pack) {
 			w.write_object("ai", this->ai, version);
 		}
 
-- 
2.43.0


From c11eca32993d53a7556edac8719871c95ab15cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:38 +0000
Subject: [PATCH 040/100] fix: names of visuals without an object got lost when
 saving

---
 src/vobs/VirtualObject.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/vobs/VirtualObject.cc b/src/vobs/VirtualObject.cc
index 3a1398b..18134f9 100644
--- a/src/vobs/VirtualObject.cc
+++ b/src/vobs/VirtualObject.cc
@@ -8,7 +8,6 @@
 #include <unordered_map>
 
 namespace zenkit {
-	static std::shared_ptr<Visual> const DEFAULT_VISUAL = std::make_shared<Visual>();
 	static bool pack = true;
 
 	/// \brief A mapping of archive class names to visual_type values.
@@ -69,6 +68,7 @@ namespace zenkit {
 		bool has_visual_object = true;
 		bool has_ai_object = true;
 		bool has_event_manager_object = false;
+		this->visual = nullptr;
 
 		if (packed) {
 			auto bin = r.read_raw(version == GameVersion::GOTHIC_1 ? 74 : 83); // dataRaw
@@ -171,11 +171,12 @@ namespace zenkit {
 				if (this->visual->type == VisualType::DECAL) {
 					this->visual_decal.emplace(*reinterpret_cast<VisualDecal*>(this->visual.get()));
 				}
-			} else {
-				this->visual = DEFAULT_VISUAL;
 			}
-		} else {
-			this->visual = DEFAULT_VISUAL;
+		}
+
+		if (this->visual == nullptr) {
+			this->visual = std::make_shared<Visual>();
+			this->visual->name = this->visual_name;
 		}
 
 		if (has_ai_object) {
-- 
2.43.0


From e209cb4bb4e1e3e89dd82147e3ff778bf1b1588a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:38 +0000
Subject: [PATCH 041/100] fix: properties of sounds were saved under the wrong
 names

---
 src/vobs/Sound.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/vobs/Sound.cc b/src/vobs/Sound.cc
index d0e0712..10cc203 100644
--- a/src/vobs/Sound.cc
+++ b/src/vobs/Sound.cc
@@ -32,15 +32,15 @@ namespace zenkit {
 	void VSound::save(WriteArchive& w, GameVersion version) const {
 		VirtualObject::save(w, version);
 		w.write_float("sndVolume", this->volume);
-		w.write_enum("sndVolume", static_cast<std::uint32_t>(this->mode));
-		w.write_float("sndVolume", this->random_delay);
-		w.write_float("sndVolume", this->random_delay_var);
-		w.write_bool("sndVolume", this->initially_playing);
-		w.write_bool("sndVolume", this->ambient3d);
-		w.write_bool("sndVolume", this->obstruction);
-		w.write_float("sndVolume", this->cone_angle);
-		w.write_enum("sndVolume", static_cast<std::uint32_t>(this->volume_type));
-		w.write_float("sndVolume", this->radius);
+		w.write_enum("sndMode", static_cast<std::uint32_t>(this->mode));
+		w.write_float("sndRandDelay", this->random_delay);
+		w.write_float("sndRandDelayVar", this->random_delay_var);
+		w.write_bool("sndStartOn", this->initially_playing);
+		w.write_bool("sndAmbient3D", this->ambient3d);
+		w.write_bool("sndObstruction", this->obstruction);
+		w.write_float("sndConeAngle", this->cone_angle);
+		w.write_enum("sndVolType", static_cast<std::uint32_t>(this->volume_type));
+		w.write_float("sndRadius", this->radius);
 		w.write_string("sndName", this->sound_name);
 
 		if (w.is_save_game()) {
-- 
2.43.0


From 10820d75ec0949908f43ce3c9f491d620890eb15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:38 +0000
Subject: [PATCH 042/100] fix: properties of movers were saved under the wrong
 names

---
 src/vobs/Trigger.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vobs/Trigger.cc b/src/vobs/Trigger.cc
index 23f9c29..2ee6272 100644
--- a/src/vobs/Trigger.cc
+++ b/src/vobs/Trigger.cc
@@ -135,9 +135,9 @@ namespace zenkit {
 	void VMover::save(WriteArchive& w, GameVersion version) const {
 		VTrigger::save(w, version);
 		w.write_enum("moverBehavior", static_cast<std::uint32_t>(this->behavior));
-		w.write_float("autoLinkEnabled", this->touch_blocker_damage);
-		w.write_float("autoLinkEnabled", this->stay_open_time_sec);
-		w.write_bool("autoLinkEnabled", this->locked);
+		w.write_float("touchBlockerDamage", this->touch_blocker_damage);
+		w.write_float("stayOpenTimeSec", this->stay_open_time_sec);
+		w.write_bool("moverLocked", this->locked);
 		w.write_bool("autoLinkEnabled", this->auto_link);
 
 		if (version == GameVersion::GOTHIC_2) {
-- 
2.43.0


From cd759f81e0e522a9b11fc80f7f40ba37a5ff0b8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:38 +0000
Subject: [PATCH 043/100] fix: colour animations of lights were saved with the
 range animation in front

---
 src/vobs/Light.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vobs/Light.cc b/src/vobs/Light.cc
index 5183385..9b34b2d 100644
--- a/src/vobs/Light.cc
+++ b/src/vobs/Light.cc
@@ -101,7 +101,7 @@ namespace zenkit {
 			w.write_float("rangeAniFPS", this->range_animation_fps);
 			w.write_bool("rangeAniSmooth", this->range_animation_smooth);
 
-			os.clear();
+			os.str("");
 			for (auto& c : this->color_animation_list) {
 				os << "(" << static_cast<int>(c.r) << " " << static_cast<int>(c.g) << " " << static_cast<int>(c.b)
 				   << ") ";
-- 
2.43.0


From ee03fdcb7ad738e53c413aa75da2a39a48a68821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:38 +0000
Subject: [PATCH 044/100] fix: only the first packed value of an NPC was loaded

---
 src/vobs/Misc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vobs/Misc.cc b/src/vobs/Misc.cc
index c711191..96879ea 100644
--- a/src/vobs/Misc.cc
+++ b/src/vobs/Misc.cc
@@ -366,7 +366,7 @@ namespace zenkit {
 			do {
 				auto next = std::find(it, pack.end(), ';');
 				this->packed[idx++].assign(it, next);
-				it = next;
+				it = next == pack.end() ? next : next + 1;
 			} while (it != pack.end() && idx < 9);
 		}
 
-- 
2.43.0


From df37128ecf50c0d53c732f3e811ffe95c355a907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:38 +0000
Subject: [PATCH 045/100] fix: screen effects were saved with too little data

---
 src/vobs/Misc.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/vobs/Misc.cc b/src/vobs/Misc.cc
index 96879ea..c52cc14 100644
--- a/src/vobs/Misc.cc
+++ b/src/vobs/Misc.cc
@@ -617,7 +617,7 @@ namespace zenkit {
 		if (w.is_save_game()) {
 			// FIXME: Not implemented because original not understood.
 			std::size_t count = version == GameVersion::GOTHIC_1 ? 5 : 12;
-			std::vector bytes {count * 4, std::byte {}};
+			std::vector<std::byte> bytes(count * 4);
 			w.write_raw("blend", bytes);
 			w.write_raw("cinema", bytes);   //
 			w.write_raw("fovMorph", bytes); //
-- 
2.43.0


From 53a508f5151b76ceabb46c94b02ee7d68d38bec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:38 +0000
Subject: [PATCH 046/100] fix: code masters in Gothic 2 save-games were saved
 incompletely

---
 src/vobs/Misc.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/vobs/Misc.cc b/src/vobs/Misc.cc
index c52cc14..aa77a84 100644
--- a/src/vobs/Misc.cc
+++ b/src/vobs/Misc.cc
@@ -161,7 +161,12 @@ namespace zenkit {
 		}
 
 		if (w.is_save_game() && version == GameVersion::GOTHIC_2) {
-			// FIXME: This is not implemented because its behavior is unknown.
+			w.write_byte("numSlavesTriggered", this->s_num_triggered_slaves);
+
+			for (auto i = 0u; i < (this->slaves.size() & 0xffu); ++i) {
+				// FIXME: Figure out what these refer to.
+				w.write_object("slaveTriggered" + std::to_string(i), static_cast<Object const*>(nullptr), version);
+			}
 		}
 	}
 
-- 
2.43.0


From 9c59cf305e3c59be4e469db34edcf8c2c2e0c9b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:38 +0000
Subject: [PATCH 047/100] fix: missing items of NPCs crashed, and short keys
 were saved where they are not expected

---
 src/vobs/Misc.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/vobs/Misc.cc b/src/vobs/Misc.cc
index aa77a84..ba14718 100644
--- a/src/vobs/Misc.cc
+++ b/src/vobs/Misc.cc
@@ -381,7 +381,7 @@ namespace zenkit {
 		for (auto i = 0u; i < item_count; ++i) {
 			this->items[i] = r.read_object<VItem>(version); // item0
 
-			if ((this->items[i]->s_flags & 0x200) != 0) {
+			if (r.is_save_game() && this->items[i] && (this->items[i]->s_flags & 0x200) != 0) {
 				(void) r.read_int(); // shortKey<n> // TODO
 			}
 		}
@@ -543,7 +543,7 @@ namespace zenkit {
 			auto& item = this->items[i];
 			w.write_object("item" + std::to_string(i), item, version);
 
-			if ((item->s_flags & 0x200) != 0) {
+			if (w.is_save_game() && item && (item->s_flags & 0x200) != 0) {
 				w.write_int("shortKey" + std::to_string(i), 0); // TODO
 			}
 		}
-- 
2.43.0


From 62e97ed7bc5a1af419f1548c9da650c92899701b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:38 +0000
Subject: [PATCH 048/100] fix: spawn flags of worlds were saved as a boolean

---
 src/World.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/World.cc b/src/World.cc
index 90c30e6..0254bed 100644
--- a/src/World.cc
+++ b/src/World.cc
@@ -241,7 +241,7 @@ namespace zenkit {
 			w.write_bool("spawningEnabled", this->npc_spawn_enabled);
 
 			if (version == GameVersion::GOTHIC_2) {
-				w.write_bool("spawnFlags", this->npc_spawn_flags);
+				w.write_int("spawnFlags", this->npc_spawn_flags);
 			}
 		}
 	}
-- 
2.43.0


From 676b535087bf8e8df667554696fea04648f1ec48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:38 +0000
Subject: [PATCH 049/100] fix: properties of the sky controller were saved
 without names

---
 src/World.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/World.cc b/src/World.cc
index 0254bed..6f2b452 100644
--- a/src/World.cc
+++ b/src/World.cc
@@ -297,10 +297,10 @@ namespace zenkit {
 		w.write_float("dayCtr", day_ctr);
 
 		if (version == GameVersion::GOTHIC_2) {
-			w.write_float("", fade_scale);      // fadeScale
-			w.write_bool("", render_lightning); // renderLightning
-			w.write_bool("", is_raining);       // isRaining
-			w.write_int("", rain_ctr);          // rainCtr
+			w.write_float("fadeScale", fade_scale);
+			w.write_bool("renderLightning", render_lightning);
+			w.write_bool("isRaining", is_raining);
+			w.write_int("rainCtr", rain_ctr);
 		}
 	}
 } // namespace zenkit
-- 
2.43.0


From 0338e3159799efd998f008a89bbd8dc7b6b0d5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:38 +0000
Subject: [PATCH 050/100] fix: alpha functions of materials were saved as a
 boolean

---
 src/Material.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Material.cc b/src/Material.cc
index 35fd893..a5aa266 100644
--- a/src/Material.cc
+++ b/src/Material.cc
@@ -103,7 +103,7 @@ namespace zenkit {
 
 		w.write_bool("noCollDet", this->disable_collision);
 		w.write_bool("noLightmap", this->disable_lightmap);
-		w.write_bool("losDontCollapse", this->dont_collapse);
+		w.write_bool("lodDontCollapse", this->dont_collapse);
 		w.write_string("detailObject", this->detail_object);
 
 		if (version == GameVersion::GOTHIC_2) {
@@ -116,7 +116,7 @@ namespace zenkit {
 			w.write_float("waveMaxAmplitude", this->wave_max_amplitude);
 			w.write_float("waveGridSize", this->wave_grid_size);
 			w.write_bool("ignoreSunLight", this->ignore_sun);
-			w.write_bool("alphaFunc", static_cast<bool>(this->alpha_func));
+			w.write_enum("alphaFunc", static_cast<uint32_t>(this->alpha_func));
 		}
 
 		w.write_vec2("defaultMapping", this->default_mapping);
-- 
2.43.0


From 47662fdacda5fdabadd1e584bd10d8eceee1b6d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:54 +0000
Subject: [PATCH 051/100] fix: way-points whose first edge leads back to
 themselves were missing from the way-net

---
 src/world/WayNet.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/world/WayNet.cc b/src/world/WayNet.cc
index 1711aaa..8b3cff3 100644
--- a/src/world/WayNet.cc
+++ b/src/world/WayNet.cc
@@ -6,6 +6,8 @@
 
 #include "../Internal.hh"
 
+#include <unordered_set>
+
 namespace zenkit {
 	void WayPoint::load(ReadArchive& r, GameVersion) {
 		this->name = r.read_string();      // wpName
@@ -26,6 +28,8 @@ namespace zenkit {
 	void WayNet::load(ReadArchive& r, GameVersion version) {
 		[[maybe_unused]] auto ver = r.read_int(); // waynetVersion
 		auto count_points = r.read_int();         // numWaypoints
+		this->points.clear();
+		this->edges.clear();
 		this->points.reserve(count_points);
 
 		for (auto i = 0; i < count_points; ++i) {
@@ -33,6 +37,11 @@ namespace zenkit {
 			this->points.back()->free_point = true;
 		}
 
+		std::unordered_set<WayPoint const*> known;
+		for (auto const& point : this->points) {
+			known.insert(point.get());
+		}
+
 		auto count_edges = r.read_int(); // numWays
 		this->edges.reserve(count_edges);
 
@@ -40,8 +49,8 @@ namespace zenkit {
 			auto wayl = r.read_object<WayPoint>(version);
 			auto wayr = r.read_object<WayPoint>(version);
 
-			if (wayl.use_count() < 3) this->points.push_back(wayl);
-			if (wayr.use_count() < 3) this->points.push_back(wayr);
+			if (known.insert(wayl.get()).second) this->points.push_back(wayl);
+			if (known.insert(wayr.get()).second) this->points.push_back(wayr);
 
 			this->edges.emplace_back(wayl, wayr);
 		}
-- 
2.43.0


From b3fafffa5a45ac9588839038c2f38c007114cef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:54 +0000
Subject: [PATCH 052/100] fix: loading a cutscene without a block crashed

---
 src/CutsceneLibrary.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/CutsceneLibrary.cc b/src/CutsceneLibrary.cc
index 49bd4cd..c0c22dd 100644
--- a/src/CutsceneLibrary.cc
+++ b/src/CutsceneLibrary.cc
@@ -53,7 +53,8 @@ namespace zenkit {
 			}
 		}
 
-		return std::get<std::shared_ptr<CutsceneAtomicBlock>>(cur->block)->message;
+		auto const& atomic = std::get<std::shared_ptr<CutsceneAtomicBlock>>(cur->block);
+		return atomic == nullptr ? nullptr : atomic->message;
 	}
 
 	void CutsceneBlock::set_message(std::shared_ptr<ConversationMessageEvent> msg) {
@@ -80,7 +81,9 @@ namespace zenkit {
 		}
 
 		auto blk = r.read_object(version);
-		if (blk->get_object_type() == ObjectType::zCCSAtomicBlock) {
+		if (blk == nullptr) {
+			this->block = std::shared_ptr<CutsceneAtomicBlock> {};
+		} else if (blk->get_object_type() == ObjectType::zCCSAtomicBlock) {
 			this->block = std::static_pointer_cast<CutsceneAtomicBlock>(blk);
 		} else if (blk->get_object_type() == ObjectType::zCCSBlock) {
 			this->block = std::static_pointer_cast<CutsceneBlock>(blk);
-- 
2.43.0


From d7eac0f4eefe56b6d2c3242f6237e86764f599c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:36:54 +0000
Subject: [PATCH 053/100] fix: looking for an unknown cutscene block returned
 another one

---
 src/CutsceneLibrary.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/CutsceneLibrary.cc b/src/CutsceneLibrary.cc
index c0c22dd..9bb5362 100644
--- a/src/CutsceneLibrary.cc
+++ b/src/CutsceneLibrary.cc
@@ -112,7 +112,7 @@ namespace zenkit {
 			return it->name < n;
 		});
 
-		if (result == this->blocks.end()) {
+		if (result == this->blocks.end() || (*result)->name != name) {
 			return nullptr;
 		}
 
-- 
2.43.0


From 773e58f630095da0674f3442a5ad200ec2bad3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:16 +0000
Subject: [PATCH 054/100] fix: loading a cutscene library again kept the blocks
 loaded before

---
 src/CutsceneLibrary.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/CutsceneLibrary.cc b/src/CutsceneLibrary.cc
index 9bb5362..79b9b36 100644
--- a/src/CutsceneLibrary.cc
+++ b/src/CutsceneLibrary.cc
@@ -121,6 +121,7 @@ namespace zenkit {
 
 	void CutsceneLibrary::load(ReadArchive& r, GameVersion version) {
 		auto item_count = r.read_int(); // NumOfItems
+		this->blocks.clear();
 		this->blocks.reserve(static_cast<std::uint64_t>(item_count));
 
 		for (auto i = 0; i < item_count; ++i) {
-- 
2.43.0


From 5598bda3602534158f4e7201eedba48461f34345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:16 +0000
Subject: [PATCH 055/100] fix: loading a save-game again kept missions and
 symbol values loaded before

---
 src/SaveGame.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index 7327e5a..a2b3ac0 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -97,6 +97,7 @@ namespace zenkit {
 
 		// oCMissionManager {
 		auto mission_count = r.read_int(); // NumOfEntries
+		this->missions.clear();
 		for (auto i = 0; i < mission_count; ++i) {
 			// oCMission {
 			auto& mission = this->missions.emplace_back();
@@ -146,6 +147,7 @@ namespace zenkit {
 
 		for (SaveSymbolState& sym : this->symbols) {
 			sym.name = r.read_string(); // symName0
+			sym.values.clear();
 
 			// For Gothic II saves, there is additional data stored
 			if (version == GameVersion::GOTHIC_1) {
-- 
2.43.0


From 2ea50294ae92d8735b475028ba7a1a78c6310111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:16 +0000
Subject: [PATCH 056/100] fix: loading a cutscene manager again kept the items
 loaded before

---
 src/SaveGame.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index a2b3ac0..c5df055 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -67,6 +67,7 @@ namespace zenkit {
 
 	void CutsceneManager::load(ReadArchive& r, GameVersion version) {
 		auto pool_count = r.read_int(); // poolCount
+		this->pool_items.clear();
 		for (auto i = 0; i < pool_count; ++i) {
 			this->pool_items.push_back(r.read_object<CutscenePoolItem>(version));
 		}
-- 
2.43.0


From b85c859956e78139f0df0d7bb18cecfc41ef4dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:16 +0000
Subject: [PATCH 057/100] fix: save-games without a thumbnail could not be
 loaded

---
 src/SaveGame.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index c5df055..c9ede7b 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -306,7 +306,11 @@ namespace zenkit {
 		// Load THUMB.SAV
 		{
 			ZKLOGI("SaveGame", "Loading THUMB.SAV");
-			if (auto file_thumb = find_file_matching(entries, "THUMB.SAV")) {
+			this->thumbnail.reset();
+
+			// Games without a thumbnail are saved with an empty file.
+			auto file_thumb = find_file_matching(entries, "THUMB.SAV");
+			if (file_thumb && std::filesystem::file_size(*file_thumb) > 0) {
 				auto r = Read::from(*file_thumb);
 
 				this->thumbnail.emplace();
-- 
2.43.0


From 251a2db173da21d6142354a521b4473ede4cd675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:16 +0000
Subject: [PATCH 058/100] fix: saving over the current save-game by another
 path deleted the worlds visited before

---
 src/SaveGame.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index c9ede7b..8332aa6 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -335,7 +335,8 @@ namespace zenkit {
 
 	void SaveGame::save(std::filesystem::path const& path, World& world, std::string const& world_name) {
 		// Copy over the current save if necessary.
-		if (_m_path != path) {
+		std::error_code ec;
+		if (_m_path != path && !std::filesystem::equivalent(_m_path, path, ec)) {
 			if (std::filesystem::exists(path)) {
 				std::filesystem::remove_all(path);
 			}
-- 
2.43.0


From f2cfc97c2f3c4b881bea0843b84fdeffef0aac1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:16 +0000
Subject: [PATCH 059/100] fix: a save-game that could not be loaded was made
 the current one

---
 src/SaveGame.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index 8332aa6..7e59775 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -278,8 +278,6 @@ namespace zenkit {
 	}
 
 	void SaveGame::load(std::filesystem::path const& path) {
-		this->_m_path = path;
-
 		if (!std::filesystem::is_directory(path)) {
 			throw ParserError {"SaveGame", "save game path does not exist or is not a directory"};
 		}
@@ -331,6 +329,8 @@ namespace zenkit {
 			auto ar = ReadArchive::from(r.get());
 			this->state.load(*ar, _m_version);
 		}
+
+		this->_m_path = path;
 	}
 
 	void SaveGame::save(std::filesystem::path const& path, World& world, std::string const& world_name) {
-- 
2.43.0


From 0b0c89e7cd24cc00cf41b02950b400b9946f925e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:37:16 +0000
Subject: [PATCH 060/100] fix: loading a world again kept the objects loaded
 before

---
 src/World.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/World.cc b/src/World.cc
index 6f2b452..9074946 100644
--- a/src/World.cc
+++ b/src/World.cc
@@ -114,6 +114,7 @@ namespace zenkit {
 				raw->seek(static_cast<ssize_t>(end), Whence::BEG);
 			} else if (hdr.object_name == "VobTree") {
 				auto count = r.read_int(); // childs0
+				this->world_vobs.clear();
 				for (auto i = 0; i < count; ++i) {
 					auto child = parse_vob_tree(r, version);
 
-- 
2.43.0


From c948aaca9801d9664446650dd35958165743622d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:05 +0000
Subject: [PATCH 061/100] fix: poses of camera key-frames were transposed when
 saving

---
 src/vobs/Camera.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/vobs/Camera.cc b/src/vobs/Camera.cc
index 97c037c..7791245 100644
--- a/src/vobs/Camera.cc
+++ b/src/vobs/Camera.cc
@@ -44,9 +44,9 @@ namespace zenkit {
 		w.write_float("continuity", this->continuity);
 		w.write_float("timeScale", this->time_scale);
 		w.write_bool("timeIsFixed", this->time_fixed);
-		w.write_raw("originalPose",
-		            reinterpret_cast<std::byte const*>(this->original_pose.pointer()),
-		            4 * 4 * sizeof(float));
+
+		auto pose = this->original_pose.transpose();
+		w.write_raw("originalPose", reinterpret_cast<std::byte const*>(pose.pointer()), 4 * 4 * sizeof(float));
 	}
 
 	void VCutsceneCamera::parse(VCutsceneCamera& obj, ReadArchive& r, GameVersion version) {
-- 
2.43.0


From efea4039866bc394f49404f592eafe7d8e157b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:39:05 +0000
Subject: [PATCH 062/100] fix: the properties of triggers that replace their
 flags were not saved

---
 src/vobs/Trigger.cc | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/vobs/Trigger.cc b/src/vobs/Trigger.cc
index 2ee6272..2c74d4a 100644
--- a/src/vobs/Trigger.cc
+++ b/src/vobs/Trigger.cc
@@ -46,8 +46,15 @@ namespace zenkit {
 	void VTrigger::save(WriteArchive& w, GameVersion version) const {
 		VirtualObject::save(w, version);
 		w.write_string("triggerTarget", this->target);
-		w.write_raw("flags", reinterpret_cast<std::byte const*>(&this->flags), 1);
-		w.write_raw("filterFlags", reinterpret_cast<std::byte const*>(&this->filter_flags), 1);
+
+		auto flag_bits = static_cast<std::byte>((this->flags & ~5) | this->start_enabled | this->send_untrigger << 2);
+		w.write_raw("flags", &flag_bits, 1);
+
+		auto filter_bits =
+		    static_cast<std::byte>((this->filter_flags & ~63) | this->react_to_on_trigger | this->react_to_on_touch << 1 |
+		                           this->react_to_on_damage << 2 | this->respond_to_object << 3 |
+		                           this->respond_to_pc << 4 | this->respond_to_npc << 5);
+		w.write_raw("filterFlags", &filter_bits, 1);
 		w.write_string("respondToVobName", this->vob_target);
 		w.write_int("numCanBeActivated", this->max_activation_count);
 		w.write_float("retriggerWaitSec", this->retrigger_delay_sec);
-- 
2.43.0


From 61d83e7cb78b0d6d5f5158ac170a8f8394270177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:25 +0000
Subject: [PATCH 063/100] fix: polygons of Gothic 2 meshes were saved with the
 vertices of other triangles

---
 src/Mesh.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Mesh.cc b/src/Mesh.cc
index 0462c4a..db315ca 100644
--- a/src/Mesh.cc
+++ b/src/Mesh.cc
@@ -328,8 +328,8 @@ namespace zenkit {
 						c->write_ushort(this->polygon_vertex_indices[poly.index_offset + i]);
 						c->write_uint(this->polygon_feature_indices[poly.index_offset + i]);
 					} else {
-						c->write_uint(this->polygons.vertex_indices[poly.index_offset + i]);
-						c->write_uint(this->polygons.feature_indices[poly.index_offset + i]);
+						c->write_uint(this->polygon_vertex_indices[poly.index_offset + i]);
+						c->write_uint(this->polygon_feature_indices[poly.index_offset + i]);
 					}
 				}
 			}
-- 
2.43.0


From 37eb2ebd94e591bb58cd834a177823da645ea3b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:25 +0000
Subject: [PATCH 064/100] fix: the upper bit of the normal axis of Gothic 1
 polygons was lost

---
 src/Mesh.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Mesh.cc b/src/Mesh.cc
index db315ca..c162883 100644
--- a/src/Mesh.cc
+++ b/src/Mesh.cc
@@ -117,7 +117,7 @@ namespace zenkit {
 						    pflags.is_lod = (flags1 & 0b00010000) >> 4;
 						    pflags.is_outdoor = (flags1 & 0b00100000) >> 5;
 						    pflags.is_ghost_occluder = (flags1 & 0b01000000) >> 6;
-						    pflags.normal_axis = ((flags1 & 0b10000000) >> 7) | (flags2 & 0b00000001);
+						    pflags.normal_axis = ((flags1 & 0b10000000) >> 7) | ((flags2 & 0b00000001) << 1);
 						    pflags.sector_index = c->read_short();
 					    }
 
@@ -318,7 +318,7 @@ namespace zenkit {
 					               ((flags.is_sector & 1) << 3) | ((flags.is_lod & 1) << 4) |
 					               ((flags.is_outdoor & 1) << 5) | ((flags.is_ghost_occluder & 1) << 6) |
 					               ((flags.normal_axis & 1) << 7));
-					c->write_ubyte(flags.normal_axis & 2);
+					c->write_ubyte((flags.normal_axis & 2) >> 1);
 					c->write_short(flags.sector_index);
 				}
 
-- 
2.43.0


From 9609a1e83513f6f45d6e5a086a414acf1e06510b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:25 +0000
Subject: [PATCH 065/100] fix: loading a BSP tree without nodes made one up
 from unrelated data

---
 src/world/BspTree.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/world/BspTree.cc b/src/world/BspTree.cc
index d82cf23..a94a401 100644
--- a/src/world/BspTree.cc
+++ b/src/world/BspTree.cc
@@ -95,7 +95,9 @@ namespace zenkit {
 				this->nodes.reserve(node_count);
 				this->leaf_node_indices.reserve(leaf_count);
 
-				_parse_bsp_nodes(c, this->nodes, this->leaf_node_indices, version, -1, node_count == 1);
+				if (node_count > 0) {
+					_parse_bsp_nodes(c, this->nodes, this->leaf_node_indices, version, -1, node_count == 1);
+				}
 
 				for (auto idx : this->leaf_node_indices) {
 					auto& node = this->nodes[idx];
-- 
2.43.0


From 3ea46b9f9b7c8f977e94c242289ddbaf290e907f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:01:25 +0000
Subject: [PATCH 066/100] fix: loading a mesh or BSP tree again kept the
 polygons and nodes loaded before

---
 src/Mesh.cc          | 5 +++++
 src/world/BspTree.cc | 4 ++++
 2 files changed, 9 insertions(+)

diff --git a/src/Mesh.cc b/src/Mesh.cc
index c162883..f8159f6 100644
--- a/src/Mesh.cc
+++ b/src/Mesh.cc
@@ -85,6 +85,8 @@ namespace zenkit {
 				    this->geometry.resize(poly_count);
 
 				    // At least 3 indices per polygon (triangulated).
+				    this->polygon_vertex_indices.clear();
+				    this->polygon_feature_indices.clear();
 				    this->polygon_vertex_indices.reserve(poly_count * 3);
 				    this->polygon_feature_indices.reserve(poly_count * 3);
 				    uint32_t index_offset = 0;
@@ -139,6 +141,7 @@ namespace zenkit {
 			    }
 			    case MeshChunkType::LIGHTMAPS_SHARED: {
 				    auto texture_count = c->read_uint();
+				    this->lightmaps.clear();
 
 				    std::vector<std::shared_ptr<Texture>> lightmap_textures {};
 				    lightmap_textures.resize(texture_count);
@@ -163,6 +166,7 @@ namespace zenkit {
 			    }
 			    case MeshChunkType::LIGHTMAPS: {
 				    auto lightmap_count = c->read_uint();
+				    this->lightmaps.clear();
 
 				    for (std::uint32_t i = 0; i < lightmap_count; ++i) {
 					    auto origin = c->read_vec3();
@@ -190,6 +194,7 @@ namespace zenkit {
 	}
 
 	void Mesh::triangulate(std::vector<std::uint32_t> const& leaf_polygons) {
+		this->polygons = {};
 		this->polygons.material_indices.reserve(leaf_polygons.size());
 		this->polygons.lightmap_indices.reserve(leaf_polygons.size());
 		this->polygons.feature_indices.reserve(leaf_polygons.size() * 4);
diff --git a/src/world/BspTree.cc b/src/world/BspTree.cc
index a94a401..b232b5e 100644
--- a/src/world/BspTree.cc
+++ b/src/world/BspTree.cc
@@ -92,8 +92,11 @@ namespace zenkit {
 				uint32_t node_count = c->read_uint();
 				uint32_t leaf_count = c->read_uint();
 
+				this->nodes.clear();
 				this->nodes.reserve(node_count);
+				this->leaf_node_indices.clear();
 				this->leaf_node_indices.reserve(leaf_count);
+				this->leaf_polygons.clear();
 
 				if (node_count > 0) {
 					_parse_bsp_nodes(c, this->nodes, this->leaf_node_indices, version, -1, node_count == 1);
@@ -118,6 +121,7 @@ namespace zenkit {
 			}
 			case BspChunkType::OUTDOORS: {
 				auto sector_count = c->read_uint();
+				this->sectors.clear();
 				this->sectors.reserve(sector_count);
 
 				for (std::uint32_t i = 0; i < sector_count; ++i) {
-- 
2.43.0


From a475783ce867060aa5b73cacaf5f30a503529d1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:18 +0000
Subject: [PATCH 067/100] fix: detecting the version of an archive which is not
 a world never ended

---
 src/World.cc | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/World.cc b/src/World.cc
index 9074946..386e47c 100644
--- a/src/World.cc
+++ b/src/World.cc
@@ -30,8 +30,14 @@ namespace zenkit {
 		ArchiveObject chnk {};
 		archive->read_object_begin(chnk);
 
+		if (chnk.class_name != "oCWorld:zCWorld") {
+			throw ParserError {"World", "'oCWorld:zCWorld' chunk expected, got '" + chnk.class_name + "'"};
+		}
+
 		while (!archive->read_object_end()) {
-			archive->read_object_begin(chnk);
+			if (!archive->read_object_begin(chnk)) {
+				break;
+			}
 
 			if (chnk.object_name == "MeshAndBsp") {
 				auto bsp_version = buf->read_uint();
-- 
2.43.0


From f39b974dea85bd859a97bd34ce2a81a55f3dbdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:19:56 +0000
Subject: [PATCH 068/100] fix: loading a world again kept the NPCs and
 controllers loaded before

---
 src/World.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/World.cc b/src/World.cc
index 386e47c..d886c1a 100644
--- a/src/World.cc
+++ b/src/World.cc
@@ -79,6 +79,12 @@ namespace zenkit {
 	void World::load(ReadArchive& r, GameVersion version) {
 		ArchiveObject hdr;
 
+		// These are not part of every world.
+		this->player = nullptr;
+		this->sky_controller = nullptr;
+		this->npcs.clear();
+		this->npc_spawns.clear();
+
 		// Load properties of `zCWorld`
 		while (!r.read_object_end()) {
 			if (!r.read_object_begin(hdr)) {
-- 
2.43.0


From 3942846ac7fbeb4ecfce497ba71dab5d41674750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:39:07 +0000
Subject: [PATCH 069/100] fix: saving a game again after its slot had been
 deleted saved nothing

---
 src/SaveGame.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/SaveGame.cc b/src/SaveGame.cc
index 7e59775..cbc2598 100644
--- a/src/SaveGame.cc
+++ b/src/SaveGame.cc
@@ -343,11 +343,11 @@ namespace zenkit {
 
 			if (!_m_path.empty() && std::filesystem::exists(_m_path)) {
 				std::filesystem::copy(_m_path, path, std::filesystem::copy_options::recursive);
-			} else {
-				std::filesystem::create_directories(path);
 			}
 		}
 
+		std::filesystem::create_directories(path);
+
 		{
 			auto w = Write::to(path / "SAVEINFO.SAV");
 			auto ar = WriteArchive::to(w.get(), ArchiveFormat::ASCII);
-- 
2.43.0


From 92f2916102217731980fb6691e186646a46618fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:41 +0000
Subject: [PATCH 070/100] fix: loading a texture again kept the mipmaps of the
 first one

---
 src/Texture.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Texture.cc b/src/Texture.cc
index bc5106c..bed91f1 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -304,6 +304,7 @@ namespace zenkit {
 		}
 
 		// Lowest mipmap-level first
+		this->_m_textures.clear();
 		for (std::int64_t level = this->_m_mipmap_count - 1; level >= 0; --level) {
 			auto size =
 			    _ztex_mipmap_size(this->_m_format, this->_m_width, this->_m_height, static_cast<uint32_t>(level));
-- 
2.43.0


From 16a329ad749e25fc8e589fcad8bc928a6866d3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:41 +0000
Subject: [PATCH 071/100] fix: converting a paletted texture to RGBA wrote
 outside of the buffer

---
 src/Texture.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/Texture.cc b/src/Texture.cc
index bed91f1..b0cc9ef 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -325,6 +325,7 @@ namespace zenkit {
 
 		if (_m_format == TextureFormat::P8) {
 			std::vector<std::uint8_t> conv;
+			conv.resize(width * height * 4);
 			for (auto i = 0u; i < width * height; ++i) {
 				auto palentry = _m_palette[map[i]];
 				conv[i * 4 + 0] = palentry.r;
-- 
2.43.0


From 66ac9f2aa669b5175a5d418bbc4769bbf29a846b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:41 +0000
Subject: [PATCH 072/100] fix: the smallest mipmaps of non-square textures had
 no size

---
 include/zenkit/Texture.hh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/zenkit/Texture.hh b/include/zenkit/Texture.hh
index 6b430b9..4e0acfa 100644
--- a/include/zenkit/Texture.hh
+++ b/include/zenkit/Texture.hh
@@ -4,6 +4,7 @@
 #include "zenkit/Error.hh"
 #include "zenkit/Library.hh"
 
+#include <algorithm>
 #include <array>
 #include <cstdint>
 #include <vector>
@@ -82,13 +83,13 @@ namespace zenkit {
 		/// \param level The mipmap level to use (beginning from 0).
 		/// \return The width in pixels of the given mipmap level.
 		[[nodiscard]] ZKAPI std::uint32_t mipmap_width(std::uint32_t level) const noexcept {
-			return _m_width >> level;
+			return std::max(1u, _m_width >> level);
 		}
 
 		/// \param level The mipmap level to use (beginning from 0).
 		/// \return The height in pixels of the given mipmap level.
 		[[nodiscard]] ZKAPI std::uint32_t mipmap_height(std::uint32_t level) const noexcept {
-			return _m_height >> level;
+			return std::max(1u, _m_height >> level);
 		}
 
 		/// \return The width of the texture in-engine.
-- 
2.43.0


From 4ca98f8aff11e0985b1ef2d7f956dd000b9fd5a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:41 +0000
Subject: [PATCH 073/100] fix: converting a texture to B8G8R8A8 mixed up its
 pixels

---
 src/Texture.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Texture.cc b/src/Texture.cc
index b0cc9ef..b88a293 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -187,10 +187,10 @@ namespace zenkit {
 		case TextureFormat::B8G8R8A8:
 			conv.resize(width * height * 4);
 			for (auto i = 0u; i < width * height; ++i) {
-				conv[i + 0] = bytes[i + 2];
-				conv[i + 1] = bytes[i + 1];
-				conv[i + 2] = bytes[i + 0];
-				conv[i + 3] = bytes[i + 3];
+				conv[i * 4 + 0] = bytes[i * 4 + 2];
+				conv[i * 4 + 1] = bytes[i * 4 + 1];
+				conv[i * 4 + 2] = bytes[i * 4 + 0];
+				conv[i * 4 + 3] = bytes[i * 4 + 3];
 			}
 
 			break;
-- 
2.43.0


From ccb995dc12ba38ba02f83e3f9265b364f87ccd58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:41 +0000
Subject: [PATCH 074/100] fix: converting a texture to A8R8G8B8 put the
 channels into the wrong places

---
 src/Texture.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/Texture.cc b/src/Texture.cc
index b88a293..06afe66 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -209,10 +209,10 @@ namespace zenkit {
 		case TextureFormat::A8R8G8B8:
 			conv.resize(width * height * 4);
 			for (auto i = 0u; i < width * height; ++i) {
-				conv[i * 4 + 0] = bytes[i * 4 + 1];
-				conv[i * 4 + 1] = bytes[i * 4 + 2];
-				conv[i * 4 + 2] = bytes[i * 4 + 3];
-				conv[i * 4 + 3] = bytes[i * 4 + 0];
+				conv[i * 4 + 0] = bytes[i * 4 + 3];
+				conv[i * 4 + 1] = bytes[i * 4 + 0];
+				conv[i * 4 + 2] = bytes[i * 4 + 1];
+				conv[i * 4 + 3] = bytes[i * 4 + 2];
 			}
 			break;
 		case TextureFormat::B8G8R8:
-- 
2.43.0


From 6c9b09ccac9e5056445d0a2b4c905d4b41779833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:41 +0000
Subject: [PATCH 075/100] fix: converting a texture to R5G6B5 swapped red and
 blue and overflowed

---
 src/Texture.cc | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/Texture.cc b/src/Texture.cc
index 06afe66..b3b05a8 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -235,11 +235,10 @@ namespace zenkit {
 			conv.resize(width * height * 2);
 
 			for (std::uint32_t i = 0; i < width * height; ++i) {
-				r5g6b5 rgb {
-				    static_cast<uint8_t>(static_cast<double>(bytes[i * 4 + 0]) / (5. / 8.)),
-				    static_cast<uint8_t>(static_cast<double>(bytes[i * 4 + 1]) / (6. / 8.)),
-				    static_cast<uint8_t>(static_cast<double>(bytes[i * 4 + 2]) / (5. / 8.)),
-				};
+				r5g6b5 rgb {};
+				rgb.r = static_cast<uint16_t>(bytes[i * 4 + 0] >> 3);
+				rgb.g = static_cast<uint16_t>(bytes[i * 4 + 1] >> 2);
+				rgb.b = static_cast<uint16_t>(bytes[i * 4 + 2] >> 3);
 
 				memcpy(conv.data() + i * 2, &rgb, sizeof(rgb));
 			}
-- 
2.43.0


From 988e9070d663f1a8b59b94281a406375caef2d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:41 +0000
Subject: [PATCH 076/100] fix: compressing a texture wrote outside of the
 buffer

---
 src/Texture.cc | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/Texture.cc b/src/Texture.cc
index b3b05a8..58b3ec8 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -245,12 +245,21 @@ namespace zenkit {
 
 			break;
 		case TextureFormat::DXT1:
+			conv.resize(static_cast<size_t>(squish::GetStorageRequirements(static_cast<int>(width),
+			                                                               static_cast<int>(height),
+			                                                               squish::kDxt1)));
 			squish::CompressImage(bytes, static_cast<int>(width), static_cast<int>(height), conv.data(), squish::kDxt1);
 			break;
 		case TextureFormat::DXT3:
+			conv.resize(static_cast<size_t>(squish::GetStorageRequirements(static_cast<int>(width),
+			                                                               static_cast<int>(height),
+			                                                               squish::kDxt3)));
 			squish::CompressImage(bytes, static_cast<int>(width), static_cast<int>(height), conv.data(), squish::kDxt3);
 			break;
 		case TextureFormat::DXT5:
+			conv.resize(static_cast<size_t>(squish::GetStorageRequirements(static_cast<int>(width),
+			                                                               static_cast<int>(height),
+			                                                               squish::kDxt5)));
 			squish::CompressImage(bytes, static_cast<int>(width), static_cast<int>(height), conv.data(), squish::kDxt5);
 			break;
 		default:
-- 
2.43.0


From 06e2edb3e0155ef8d2811657fc09acb842171542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:41 +0000
Subject: [PATCH 077/100] fix: building a non-square texture dropped its
 smallest mipmaps

---
 src/Texture.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Texture.cc b/src/Texture.cc
index 58b3ec8..16d236c 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -400,7 +400,11 @@ namespace zenkit {
 
 		for (auto i = 0u; i < _m_mipmaps.size(); ++i) {
 			auto& [data, fmt] = _m_mipmaps[i];
-			tex._m_textures.push_back(_ztex_convert_format(data.data(), _m_width >> i, _m_height >> i, fmt, format));
+			tex._m_textures.push_back(_ztex_convert_format(data.data(),
+			                                               std::max(1u, _m_width >> i),
+			                                               std::max(1u, _m_height >> i),
+			                                               fmt,
+			                                               format));
 		}
 
 		return tex;
-- 
2.43.0


From 0fa8cfab20cb7cffb82e88235f5fd7f0ec3936d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:41 +0000
Subject: [PATCH 078/100] fix: the mipmaps of built textures were in the wrong
 order

---
 src/Texture.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Texture.cc b/src/Texture.cc
index 16d236c..409f494 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -398,7 +398,8 @@ namespace zenkit {
 		tex._m_mipmap_count = _m_mipmaps.size();
 		tex._m_average_color = {}; // FIXME(lmichaelis): Calculate the average color
 
-		for (auto i = 0u; i < _m_mipmaps.size(); ++i) {
+		// The smallest mipmap is stored first.
+		for (auto i = _m_mipmaps.size(); i-- > 0;) {
 			auto& [data, fmt] = _m_mipmaps[i];
 			tex._m_textures.push_back(_ztex_convert_format(data.data(),
 			                                               std::max(1u, _m_width >> i),
-- 
2.43.0


From fd81c17159b52fb3b45fe1ae0c3c5f45ed553ea8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:41 +0000
Subject: [PATCH 079/100] fix: loading a mesh again kept parts of the first one

---
 src/Mesh.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/Mesh.cc b/src/Mesh.cc
index f8159f6..e9aa941 100644
--- a/src/Mesh.cc
+++ b/src/Mesh.cc
@@ -38,6 +38,9 @@ namespace zenkit {
 	void Mesh::load(Read* r, bool force_wide_indices) {
 		std::uint16_t version {};
 
+		// Not every part is stored in every file.
+		*this = {};
+
 		proto::read_chunked<MeshChunkType>(
 		    r,
 		    "Mesh",
-- 
2.43.0


From bafda5b11d0aeeb8e71f286850ccd4e55ad0a2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:41 +0000
Subject: [PATCH 080/100] fix: loading a BSP tree again kept parts of the first
 one

---
 src/world/BspTree.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/world/BspTree.cc b/src/world/BspTree.cc
index b232b5e..d6029e7 100644
--- a/src/world/BspTree.cc
+++ b/src/world/BspTree.cc
@@ -72,6 +72,9 @@ namespace zenkit {
 	}
 
 	void BspTree::load(Read* r, std::uint32_t version) {
+		// Not every part is stored in every file.
+		*this = {};
+
 		proto::read_chunked<BspChunkType>(r, "BspTree", [this, version](Read* c, BspChunkType type) {
 			ZKLOGI("BspTree", "Parsing chunk %x", static_cast<std::uint16_t>(type));
 
-- 
2.43.0


From 6e9573b24ecbdb21b58c08ff8fa872aa6a28e2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:41 +0000
Subject: [PATCH 081/100] fix: a saved BSP tree without light points could not
 be loaded again

---
 src/world/BspTree.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/world/BspTree.cc b/src/world/BspTree.cc
index d6029e7..56bdad5 100644
--- a/src/world/BspTree.cc
+++ b/src/world/BspTree.cc
@@ -217,11 +217,13 @@ namespace zenkit {
 			}
 		});
 
-		proto::write_chunk(w, BspChunkType::LIGHT, [this](Write* c) {
-			for (auto& point : this->light_points) {
-				c->write_vec3(point);
-			}
-		});
+		if (!this->light_points.empty()) {
+			proto::write_chunk(w, BspChunkType::LIGHT, [this](Write* c) {
+				for (auto& point : this->light_points) {
+					c->write_vec3(point);
+				}
+			});
+		}
 
 		proto::write_chunk(w, BspChunkType::OUTDOORS, [this](Write* c) {
 			c->write_uint(static_cast<uint32_t>(this->sectors.size()));
-- 
2.43.0


From b088d10ceab0d220efa462039bd9f552d4652b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:09:41 +0000
Subject: [PATCH 082/100] fix: the bounding box of an oriented box reached up
 to zero

---
 src/Boxes.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Boxes.cc b/src/Boxes.cc
index 1e4433a..6d23ff4 100644
--- a/src/Boxes.cc
+++ b/src/Boxes.cc
@@ -57,9 +57,9 @@ namespace zenkit {
 		           std::numeric_limits<float>::max(),
 		           std::numeric_limits<float>::max()};
 
-		box.max = {std::numeric_limits<float>::min(),
-		           std::numeric_limits<float>::min(),
-		           std::numeric_limits<float>::min()};
+		box.max = {std::numeric_limits<float>::lowest(),
+		           std::numeric_limits<float>::lowest(),
+		           std::numeric_limits<float>::lowest()};
 
 		for (auto i : sign) {
 			auto point = center;
-- 
2.43.0


From f59a1ed54038017135fbeb5be62f9f05c3690fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:04 +0000
Subject: [PATCH 083/100] fix: full green of R5G6B5 textures was not converted
 to full green

---
 src/Texture.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Texture.cc b/src/Texture.cc
index 409f494..1149541 100644
--- a/src/Texture.cc
+++ b/src/Texture.cc
@@ -153,9 +153,9 @@ namespace zenkit {
 		case TextureFormat::R5G6B5: {
 			for (auto i = 0u; i < width * height; ++i) {
 				auto* rgb = reinterpret_cast<r5g6b5 const*>(&bytes[i * 2]);
-				conv[i * 4 + 0] = static_cast<uint8_t>(static_cast<float>(rgb->r) * 8.225806452f);
-				conv[i * 4 + 1] = static_cast<uint8_t>(static_cast<float>(rgb->g) * 4.047619048f);
-				conv[i * 4 + 2] = static_cast<uint8_t>(static_cast<float>(rgb->b) * 8.225806452f);
+				conv[i * 4 + 0] = static_cast<uint8_t>(rgb->r * 255 / 31);
+				conv[i * 4 + 1] = static_cast<uint8_t>(rgb->g * 255 / 63);
+				conv[i * 4 + 2] = static_cast<uint8_t>(rgb->b * 255 / 31);
 				conv[i * 4 + 3] = 0xff;
 			}
 
-- 
2.43.0


From 80829fce659588052dc4fdb924d6d517d0ac9154 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:36 +0000
Subject: [PATCH 084/100] fix: model scripts without a line break at their end
 were not read correctly or forever

---
 src/ModelScriptDsl.cc | 40 +++++++++++++++++++++++++++-------------
 src/ModelScriptDsl.hh |  4 ++++
 2 files changed, 31 insertions(+), 13 deletions(-)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index 6282087..db77491 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -28,11 +28,22 @@ namespace zenkit {
 
 	MdsTokenizer::MdsTokenizer(Read* buf) : _m_buffer(buf), _m_mark(0) {}
 
+	unsigned char MdsTokenizer::get() {
+		// The end of the file also ends the current line.
+		_m_ended = _m_buffer->eof();
+		return _m_ended ? '\n' : static_cast<unsigned char>(_m_buffer->read_char());
+	}
+
+	void MdsTokenizer::unget() {
+		if (!_m_ended) _m_buffer->seek(-1, Whence::CUR);
+	}
+
 	MdsToken MdsTokenizer::next() {
 		_m_value.clear();
+		_m_mark = _m_buffer->tell();
 		while (!_m_buffer->eof()) {
 			_m_mark = _m_buffer->tell();
-			auto chr = static_cast<unsigned char>(_m_buffer->read_char());
+			auto chr = this->get();
 			_m_column += 1;
 
 			// ignore spaces, quotation marks, semicolons and parentheses
@@ -49,12 +60,12 @@ namespace zenkit {
 
 			// ignore comments
 			if (chr == '/') {
-				if (_m_buffer->read_char() != '/') {
+				if (this->get() != '/') {
 					WARN_SYNTAX("comments must start with two slashes");
 				}
 
 				// skip everything until the end of the line
-				while (_m_buffer->read_char() != '\n')
+				while (this->get() != '\n')
 					_m_column += 1;
 
 				_m_line += 1;
@@ -66,12 +77,12 @@ namespace zenkit {
 			if (std::isalpha(chr) || chr == '*' || chr == '_' || chr == '.') {
 				do {
 					_m_value.push_back(static_cast<char>(chr));
-					chr = static_cast<unsigned char>(_m_buffer->read_char());
+					chr = this->get();
 					_m_column += 1;
 				} while (std::isalnum(chr) || chr == '_' || chr == '-' || chr == '.');
 
 				// (backtrack one)
-				_m_buffer->seek(-1, Whence::CUR);
+				this->unget();
 				_m_column -= 1;
 
 				return MdsToken::KEYWORD;
@@ -79,7 +90,7 @@ namespace zenkit {
 
 			// parse strings
 			if (chr == '"') {
-				chr = static_cast<unsigned char>(_m_buffer->read_char());
+				chr = this->get();
 				_m_column += 1;
 
 				// Modded. Some mods may include `(` and/or `)` in their strings. For this reason we need to handle
@@ -93,13 +104,13 @@ namespace zenkit {
 				while (chr != '"' && chr != '\n') {
 					if (!std::isspace(chr)) prev = chr;
 					_m_value.push_back(static_cast<char>(chr));
-					chr = static_cast<unsigned char>(_m_buffer->read_char());
+					chr = this->get();
 					_m_column += 1;
 				}
 
 				if (chr != '"') {
 					WARN_SYNTAX("String not terminated");
-					_m_buffer->seek(-1, Whence::CUR);
+					this->unget();
 					_m_column -= 1;
 				}
 
@@ -113,7 +124,7 @@ namespace zenkit {
 
 				do {
 					_m_value.push_back(static_cast<char>(chr));
-					chr = static_cast<unsigned char>(_m_buffer->read_char());
+					chr = this->get();
 					_m_column += 1;
 
 					// (allow floating point numbers)
@@ -121,13 +132,13 @@ namespace zenkit {
 						floating_point = true;
 
 						_m_value.push_back(static_cast<char>(chr));
-						chr = static_cast<unsigned char>(_m_buffer->read_char());
+						chr = this->get();
 						_m_column += 1;
 					}
 				} while (std::isdigit(chr));
 
 				// (backtrack one)
-				_m_buffer->seek(-1, Whence::CUR);
+				this->unget();
 				_m_column -= 1;
 
 				return floating_point ? MdsToken::FLOAT : MdsToken::INTEGER;
@@ -156,7 +167,7 @@ namespace zenkit {
 	}
 
 	void MdsTokenizer::next_line() {
-		while (_m_buffer->read_char() != '\n') {}
+		while (this->get() != '\n') {}
 	}
 
 	void MdsTokenizer::backtrack() {
@@ -410,7 +421,10 @@ namespace zenkit {
 	}
 
 	void MdsParser::ignore_block() {
-		while (this->_m_stream.next() != MdsToken::RBRACE) {}
+		auto token = this->_m_stream.next();
+		while (token != MdsToken::RBRACE && token != MdsToken::END_OF_FILE) {
+			token = this->_m_stream.next();
+		}
 	}
 
 	MdsEventTag MdsParser::parse_eventTag() {
diff --git a/src/ModelScriptDsl.hh b/src/ModelScriptDsl.hh
index 67ec5e6..8088b62 100644
--- a/src/ModelScriptDsl.hh
+++ b/src/ModelScriptDsl.hh
@@ -38,10 +38,14 @@ namespace zenkit {
 		void next_line();
 
 	private:
+		unsigned char get();
+		void unget();
+
 		Read* _m_buffer;
 		uint32_t _m_line {1}, _m_column {1};
 		std::string _m_value;
 		std::size_t _m_mark;
+		bool _m_ended {false};
 	};
 
 	class MdsParser {
-- 
2.43.0


From 151b04ed9083d9115605f41d7637a786e6915dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:36 +0000
Subject: [PATCH 085/100] fix: unterminated strings in model scripts kept a
 parenthesis before white space

---
 src/ModelScriptDsl.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index db77491..358cdb7 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -112,6 +112,10 @@ namespace zenkit {
 					WARN_SYNTAX("String not terminated");
 					this->unget();
 					_m_column -= 1;
+
+					while (!_m_value.empty() && std::isspace(static_cast<unsigned char>(_m_value.back()))) {
+						_m_value.pop_back();
+					}
 				}
 
 				if (prev == ')') _m_value.pop_back();
-- 
2.43.0


From 3e7a277174c3a327c42b8d63a850f9a6783f0bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:36 +0000
Subject: [PATCH 086/100] fix: upper-case declarations after a blend in model
 scripts were taken for its flags

---
 src/ModelScriptDsl.cc | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index 358cdb7..c877077 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -7,6 +7,9 @@
 #include "zenkit/Misc.hh"
 #include "zenkit/Stream.hh"
 
+#include <algorithm>
+#include <cctype>
+
 #define WARN_SYNTAX(msg) ZKLOGW("ModelScript", "Syntax error (line %d, column %d): %s", _m_line, _m_column, msg)
 
 namespace zenkit {
@@ -249,7 +252,12 @@ namespace zenkit {
 			return std::nullopt;
 		}
 
-		if (kw->find("ani") != std::string::npos || kw->find("model") != std::string::npos) {
+		auto lower = *kw;
+		std::transform(lower.begin(), lower.end(), lower.begin(), [](unsigned char c) {
+			return static_cast<char>(std::tolower(c));
+		});
+
+		if (lower.find("ani") != std::string::npos || lower.find("model") != std::string::npos) {
 			this->_m_stream.backtrack();
 			return std::nullopt;
 		}
-- 
2.43.0


From 782aaf0e22bb1cbad21a7f5e77ea370d6412a98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:36 +0000
Subject: [PATCH 087/100] fix: an animation without events at the end of a
 block ended the model script

---
 src/ModelScriptDsl.cc | 13 +++++++++++--
 src/ModelScriptDsl.hh |  2 ++
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/src/ModelScriptDsl.cc b/src/ModelScriptDsl.cc
index c877077..d18890f 100644
--- a/src/ModelScriptDsl.cc
+++ b/src/ModelScriptDsl.cc
@@ -432,6 +432,14 @@ namespace zenkit {
 		}
 	}
 
+	bool MdsParser::is_event_next() {
+		auto kw = this->maybe_keyword();
+		if (!kw) return false;
+
+		_m_stream.backtrack();
+		return kw->front() == '*';
+	}
+
 	void MdsParser::ignore_block() {
 		auto token = this->_m_stream.next();
 		while (token != MdsToken::RBRACE && token != MdsToken::END_OF_FILE) {
@@ -534,8 +542,9 @@ namespace zenkit {
 
 		// Optional events block.
 		// Note: Due to #122 the curly parens are actually optional
-		this->maybe<MdsToken::LBRACE>();
-		this->parse_events(ani);
+		if (this->maybe<MdsToken::LBRACE>() || this->is_event_next()) {
+			this->parse_events(ani);
+		}
 
 		return ani;
 	}
diff --git a/src/ModelScriptDsl.hh b/src/ModelScriptDsl.hh
index 8088b62..94e8f60 100644
--- a/src/ModelScriptDsl.hh
+++ b/src/ModelScriptDsl.hh
@@ -92,6 +92,8 @@ namespace zenkit {
 		template <MdsToken kind>
 		bool maybe();
 
+		[[nodiscard]] bool is_event_next();
+
 		[[nodiscard]] std::optional<int> maybe_int();
 		[[nodiscard]] std::optional<float> maybe_number();
 		[[nodiscard]] std::optional<std::string> maybe_string();
-- 
2.43.0


From 4db6df5c39f29bf3c52e540a03212003a1c6e42c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:36 +0000
Subject: [PATCH 088/100] fix: event frames in model scripts were made up after
 a blank and read forever from bad lists

---
 src/ModelScript.cc | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/ModelScript.cc b/src/ModelScript.cc
index 71907dd..de01d7a 100644
--- a/src/ModelScript.cc
+++ b/src/ModelScript.cc
@@ -133,8 +133,7 @@ namespace zenkit {
 				std::istringstream stream {frames};
 
 				int32_t fr = 0;
-				while (!stream.eof() && !stream.fail()) {
-					stream >> fr;
+				while (stream >> fr) {
 					evt.frames.push_back(fr);
 				}
 				break;
@@ -363,8 +362,7 @@ namespace zenkit {
 					    std::istringstream stream {frames};
 
 					    int32_t frame = 0;
-					    while (!stream.eof()) {
-						    stream >> frame;
+					    while (stream >> frame) {
 						    event.frames.push_back(frame);
 					    }
 					    break;
-- 
2.43.0


From 47e2800efa90bc7cda64ab1944e48b392ed11abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:28:36 +0000
Subject: [PATCH 089/100] fix: loading a model script again kept the
 declarations of the first one

---
 src/ModelScript.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/ModelScript.cc b/src/ModelScript.cc
index de01d7a..3d28b2a 100644
--- a/src/ModelScript.cc
+++ b/src/ModelScript.cc
@@ -432,6 +432,8 @@ namespace zenkit {
 	}
 
 	void ModelScript::load(Read* r) {
+		*this = {};
+
 		auto potential_chunk_type = r->read_ushort();
 		r->seek(-2, Whence::CUR);
 
-- 
2.43.0


From 5e44a07504db7bf8c0ff2edd5b24290c0603f713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:03 +0000
Subject: [PATCH 090/100] fix: events before the first animation of compiled
 model scripts were stored out of bounds

---
 src/ModelScript.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/ModelScript.cc b/src/ModelScript.cc
index 3d28b2a..ec2b63b 100644
--- a/src/ModelScript.cc
+++ b/src/ModelScript.cc
@@ -184,6 +184,12 @@ namespace zenkit {
 		    r,
 		    "ModelScript.Binary",
 		    [&script, &ani_index](Read* c, ModelScriptBinaryChunkType type) {
+			    if (type >= ModelScriptBinaryChunkType::EVENT_SFX &&
+			        type <= ModelScriptBinaryChunkType::EVENT_CAMERA_TREMOR && script.animations.empty()) {
+				    ZKLOGW("ModelScript", "Ignoring an event which does not belong to an animation");
+				    return false;
+			    }
+
 			    switch (type) {
 			    case ModelScriptBinaryChunkType::MESH_AND_TREE: {
 				    MdsSkeleton mat {};
-- 
2.43.0


From ed3dc55e45066b031c6d2e77b3e9d316426301c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:29:03 +0000
Subject: [PATCH 091/100] fix: empty arguments of events in compiled model
 scripts were replaced by unrelated data

---
 src/ModelScript.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/src/ModelScript.cc b/src/ModelScript.cc
index ec2b63b..449fd67 100644
--- a/src/ModelScript.cc
+++ b/src/ModelScript.cc
@@ -316,15 +316,15 @@ namespace zenkit {
 				    switch (event.type) {
 				    case MdsEventType::ITEM_CREATE:
 				    case MdsEventType::ITEM_EXCHANGE:
-					    event.slot = c->read_line(true);
-					    event.item = c->read_line(true);
+					    event.slot = c->read_line(false);
+					    event.item = c->read_line(false);
 					    break;
 				    case MdsEventType::ITEM_INSERT:
 				    case MdsEventType::MUNITION_PLACE:
-					    event.slot = c->read_line(true);
+					    event.slot = c->read_line(false);
 					    break;
 				    case MdsEventType::SET_FIGHT_MODE: {
-					    if (auto mode = c->read_line(true); mode == "FIST") {
+					    if (auto mode = c->read_line(false); mode == "FIST") {
 						    event.fight_mode = MdsFightMode::FIST;
 					    } else if (mode == "1H" || mode == "1h") {
 						    event.fight_mode = MdsFightMode::SINGLE_HANDED;
@@ -342,14 +342,14 @@ namespace zenkit {
 					    break;
 				    }
 				    case MdsEventType::MESH_SWAP:
-					    event.slot = c->read_line(true);
-					    event.slot2 = c->read_line(true);
+					    event.slot = c->read_line(false);
+					    event.slot2 = c->read_line(false);
 					    break;
 				    case MdsEventType::HIT_LIMB:
-					    event.slot = c->read_line(true); // TODO
+					    event.slot = c->read_line(false); // TODO
 					    break;
 				    case MdsEventType::HIT_DIRECTION:
-					    event.slot = c->read_line(true); // TODO
+					    event.slot = c->read_line(false); // TODO
 					    break;
 				    case MdsEventType::SOUND_DRAW:
 				    case MdsEventType::SOUND_UNDRAW:
@@ -357,14 +357,14 @@ namespace zenkit {
 				    case MdsEventType::ITEM_DESTROY:
 				    case MdsEventType::TORCH_INVENTORY:
 				    case MdsEventType::ITEM_REMOVE:
-					    event.slot = c->read_line(true); // TODO
+					    event.slot = c->read_line(false); // TODO
 					    break;
 				    case MdsEventType::DAMAGE_MULTIPLIER:
 				    case MdsEventType::PARRY_FRAME:
 				    case MdsEventType::OPTIMAL_FRAME:
 				    case MdsEventType::HIT_END:
 				    case MdsEventType::COMBO_WINDOW: {
-					    auto frames = c->read_line(true);
+					    auto frames = c->read_line(false);
 					    std::istringstream stream {frames};
 
 					    int32_t frame = 0;
-- 
2.43.0


From ac509747ab92466a69dedbdab8773714f95bcba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:30 +0000
Subject: [PATCH 092/100] fix: fonts with an empty name or one that starts with
 a blank were loaded wrongly

---
 src/Font.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Font.cc b/src/Font.cc
index 8358089..90a881f 100644
--- a/src/Font.cc
+++ b/src/Font.cc
@@ -13,7 +13,7 @@ namespace zenkit {
 	    : name(std::move(font_name)), height(font_height), glyphs(std::move(font_glyphs)) {}
 
 	void Font::load(Read* r) {
-		if (auto version = r->read_line(true); version != "1") {
+		if (auto version = r->read_line(false); version != "1") {
 			throw ParserError {"Font", "version mismatch: expected version 1, got " + version};
 		}
 
-- 
2.43.0


From 3dcad28d89a0c26b4096e8f7131c439b5a35acd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:30 +0000
Subject: [PATCH 093/100] fix: events of animations with empty contents or
 values that look like whitespace were loaded wrongly

---
 src/ModelAnimation.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ModelAnimation.cc b/src/ModelAnimation.cc
index 236727b..2f66b64 100644
--- a/src/ModelAnimation.cc
+++ b/src/ModelAnimation.cc
@@ -97,10 +97,10 @@ namespace zenkit {
 				for (auto& event : this->events) {
 					event.type = static_cast<AnimationEventType>(c->read_uint());
 					event.frame = c->read_uint();
-					event.tag = c->read_line(true);
+					event.tag = c->read_line(false);
 
 					for (auto& j : event.content) {
-						j = c->read_line(true);
+						j = c->read_line(false);
 					}
 
 					for (float& value : event.values) {
-- 
2.43.0


From 32f69812e2532ceb8abfa2821375b320fb3b6405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:30 +0000
Subject: [PATCH 094/100] fix: dates of the sources of morph meshes could be
 mistaken for whitespace

---
 src/MorphMesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MorphMesh.cc b/src/MorphMesh.cc
index 2e1e15a..e0b9e62 100644
--- a/src/MorphMesh.cc
+++ b/src/MorphMesh.cc
@@ -21,7 +21,7 @@ namespace zenkit {
 
 				for (auto i = 0u; i < count; ++i) {
 					this->sources[i].file_date.load(c);
-					this->sources[i].file_name = c->read_line(true);
+					this->sources[i].file_name = c->read_line(false);
 				}
 
 				break;
-- 
2.43.0


From 7c41823b92ce68c118010400ffae5c2f834a70f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:44 +0000
Subject: [PATCH 095/100] fix: saved multi-resolution meshes claimed more
 content than they had

---
 src/MultiResolutionMesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/MultiResolutionMesh.cc b/src/MultiResolutionMesh.cc
index e3bed8c..dbe34f1 100644
--- a/src/MultiResolutionMesh.cc
+++ b/src/MultiResolutionMesh.cc
@@ -129,7 +129,7 @@ namespace zenkit {
 
 		auto off_end = static_cast<ssize_t>(w->tell());
 		w->seek(off_size, Whence::BEG);
-		w->write_uint(off_end - off_size);
+		w->write_uint(off_end - static_cast<ssize_t>(off_content));
 		w->seek(off_end, Whence::BEG);
 
 		w->write_ubyte(this->sub_meshes.size());    // submeshCount
-- 
2.43.0


From 258a32bfa16e639fe69f153aaa27dfdabc7ebccd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:44 +0000
Subject: [PATCH 096/100] fix: saved submeshes stored sizes in bytes instead of
 numbers of elements

---
 src/MultiResolutionMesh.cc | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/MultiResolutionMesh.cc b/src/MultiResolutionMesh.cc
index dbe34f1..8b71e5e 100644
--- a/src/MultiResolutionMesh.cc
+++ b/src/MultiResolutionMesh.cc
@@ -274,7 +274,7 @@ namespace zenkit {
 			w->write_ushort(tri.wedges[1]);
 			w->write_ushort(tri.wedges[2]);
 		}
-		section.triangles.size = w->tell() - section.triangles.offset;
+		section.triangles.size = static_cast<uint32_t>(this->triangles.size());
 
 		// wedges
 		section.wedges.offset = w->tell();
@@ -284,21 +284,21 @@ namespace zenkit {
 			w->write_ushort(wedge.index);
 			w->write_ushort(0); // padding
 		}
-		section.wedges.size = w->tell() - section.wedges.offset;
+		section.wedges.size = static_cast<uint32_t>(this->wedges.size());
 
 		// colors
 		section.colors.offset = w->tell();
 		for (auto color : this->colors) {
 			w->write_float(color);
 		}
-		section.colors.size = w->tell() - section.colors.offset;
+		section.colors.size = static_cast<uint32_t>(this->colors.size());
 
 		// triangle_plane_indices
 		section.triangle_plane_indices.offset = w->tell();
 		for (auto i : this->triangle_plane_indices) {
 			w->write_ushort(i);
 		}
-		section.triangle_plane_indices.size = w->tell() - section.triangle_plane_indices.offset;
+		section.triangle_plane_indices.size = static_cast<uint32_t>(this->triangle_plane_indices.size());
 
 		// triangle_planes
 		section.triangle_planes.offset = w->tell();
@@ -306,7 +306,7 @@ namespace zenkit {
 			w->write_float(plane.distance);
 			w->write_vec3(plane.normal);
 		}
-		section.triangle_planes.size = w->tell() - section.triangle_planes.offset;
+		section.triangle_planes.size = static_cast<uint32_t>(this->triangle_planes.size());
 
 		// triangle_edges
 		section.triangle_edges.offset = w->tell();
@@ -315,7 +315,7 @@ namespace zenkit {
 			w->write_ushort(edge.edges[1]);
 			w->write_ushort(edge.edges[2]);
 		}
-		section.triangle_edges.size = w->tell() - section.triangle_edges.offset;
+		section.triangle_edges.size = static_cast<uint32_t>(this->triangle_edges.size());
 
 		// edges
 		section.edges.offset = w->tell();
@@ -323,21 +323,21 @@ namespace zenkit {
 			w->write_ushort(edge.edges[0]);
 			w->write_ushort(edge.edges[1]);
 		}
-		section.edges.size = w->tell() - section.edges.offset;
+		section.edges.size = static_cast<uint32_t>(this->edges.size());
 
 		// edge_scores
 		section.edge_scores.offset = w->tell();
 		for (auto score : edge_scores) {
 			w->write_float(score);
 		}
-		section.edge_scores.size = w->tell() - section.edge_scores.offset;
+		section.edge_scores.size = static_cast<uint32_t>(this->edge_scores.size());
 
 		// wedge_map
 		section.wedge_map.offset = w->tell();
 		for (auto wedge : this->wedge_map) {
 			w->write_ushort(wedge);
 		}
-		section.wedge_map.size = w->tell() - section.wedge_map.offset;
+		section.wedge_map.size = static_cast<uint32_t>(this->wedge_map.size());
 
 		return section;
 	}
-- 
2.43.0


From 7f2f2f65d606c135962e850967d843a33c31cdd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:44 +0000
Subject: [PATCH 097/100] fix: weights and nodes of soft-skin meshes were saved
 as a second header

---
 src/SoftSkinMesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SoftSkinMesh.cc b/src/SoftSkinMesh.cc
index 8612179..382e470 100644
--- a/src/SoftSkinMesh.cc
+++ b/src/SoftSkinMesh.cc
@@ -88,7 +88,7 @@ namespace zenkit {
 			this->mesh.save_to_section(wr, version);
 		});
 
-		proto::write_chunk(w, SoftSkinMeshChunkType::HEADER, [&](Write* wr) {
+		proto::write_chunk(w, SoftSkinMeshChunkType::NODES, [&](Write* wr) {
 			auto off_size = static_cast<ssize_t>(wr->tell());
 			wr->write_uint(0);
 
-- 
2.43.0


From fd22d3c18c7ba315bd0584cb93287c72199156c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:44 +0000
Subject: [PATCH 098/100] fix: the weights of saved soft-skin meshes claimed
 four bytes too many

---
 src/SoftSkinMesh.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/SoftSkinMesh.cc b/src/SoftSkinMesh.cc
index 382e470..8444548 100644
--- a/src/SoftSkinMesh.cc
+++ b/src/SoftSkinMesh.cc
@@ -104,7 +104,7 @@ namespace zenkit {
 
 			auto off_end = static_cast<ssize_t>(wr->tell());
 			wr->seek(off_size, Whence::BEG);
-			wr->write_uint(off_end - off_size);
+			wr->write_uint(off_end - off_size - 4);
 			wr->seek(off_end, Whence::BEG);
 
 			wr->write_uint(this->wedge_normals.size());
-- 
2.43.0


From 33aa65c61d728416881a8e6baca7ea328aaa794e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:44 +0000
Subject: [PATCH 099/100] fix: all attachments of a model mesh were saved in
 one chunk

---
 src/ModelMesh.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/ModelMesh.cc b/src/ModelMesh.cc
index 47122c7..4056d31 100644
--- a/src/ModelMesh.cc
+++ b/src/ModelMesh.cc
@@ -90,11 +90,11 @@ namespace zenkit {
 			}
 		});
 
-		proto::write_chunk(w, ModelMeshChunkType::PROTO, [&](Write* wr) {
-			for (auto& [_, v] : this->attachments) {
-				v.save_to_section(wr, version);
-			}
-		});
+		for (auto& [_, v] : this->attachments) {
+			proto::write_chunk(w, ModelMeshChunkType::PROTO, [&mesh = v, version](Write* wr) {
+				mesh.save_to_section(wr, version);
+			});
+		}
 
 		proto::write_chunk(w, ModelMeshChunkType::SOFTSKINS, [&](Write* wr) {
 			wr->write_uint(this->checksum);
-- 
2.43.0


From c2173c24cea90008591dcc6b71b8992f3e088ec5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:25:44 +0000
Subject: [PATCH 100/100] fix: saved model meshes did not say how many
 soft-skin meshes they have

---
 src/ModelMesh.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/ModelMesh.cc b/src/ModelMesh.cc
index 4056d31..0f59099 100644
--- a/src/ModelMesh.cc
+++ b/src/ModelMesh.cc
@@ -98,6 +98,7 @@ namespace zenkit {
 
 		proto::write_chunk(w, ModelMeshChunkType::SOFTSKINS, [&](Write* wr) {
 			wr->write_uint(this->checksum);
+			wr->write_ushort(static_cast<uint16_t>(this->meshes.size()));
 
 			for (auto& msh : this->meshes) {
 				msh.save(wr, version);
-- 
2.43.0

