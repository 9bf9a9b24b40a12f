From dcf03a99ce5d4511121a03db15685c64b1b7af8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:57 +0000
Subject: [PATCH 01/42] fix: SocketAddr::set leaked the first address list when
 forceIpV6 is given

---
 include/cybozu/socket.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cybozu/socket.hpp b/include/cybozu/socket.hpp
index c7493bd..90bd4b6 100644
--- a/include/cybozu/socket.hpp
+++ b/include/cybozu/socket.hpp
@@ -257,6 +257,10 @@ public:
 		if (s || forceIpV6) {
 			hints.ai_family = AF_INET6;
 			hints.ai_flags |= AI_V4MAPPED;
+			if (result) {
+				freeaddrinfo(result);
+				result = 0;
+			}
 			if (getaddrinfo(address.c_str(), portStr, &hints, &result)) {
 				goto ERR_EXIT;
 			}
-- 
2.43.0


From 0ff9741bbbffa0bbd9406dd33c05a7c71c20d5be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:57 +0000
Subject: [PATCH 02/42] fix: Socket::bind and Socket::accept must not lose a
 descriptor that is still open

---
 include/cybozu/socket.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/cybozu/socket.hpp b/include/cybozu/socket.hpp
index 90bd4b6..0464c9b 100644
--- a/include/cybozu/socket.hpp
+++ b/include/cybozu/socket.hpp
@@ -583,6 +583,7 @@ public:
 	*/
 	void bind(uint16_t port, int mode = allowIPv4 | allowIPv6)
 	{
+		if (isValid()) throw cybozu::Exception("Socket:bind:already bind");
 		const int family = (mode & allowIPv6) ? AF_INET6 : AF_INET;
 		sd_ = ::socket(family, SOCK_STREAM, IPPROTO_TCP);
 		if (!isValid()) {
@@ -676,15 +677,18 @@ public:
 	*/
 	void accept(Socket& client, SocketAddr *paddr = 0) const
 	{
+		cybozu::socket_local::SocketHandle sd;
 		if (paddr) {
 			struct sockaddr *psa = &paddr->addr_.sa;
 			paddr->addrlen_ = sizeof(paddr->addr_);
-			client.sd_ = ::accept(sd_, psa, &paddr->addrlen_);
-			paddr->verify();
+			sd = ::accept(sd_, psa, &paddr->addrlen_);
 		} else {
-			client.sd_ = ::accept(sd_, 0, 0);
+			sd = ::accept(sd_, 0, 0);
 		}
-		if (!client.isValid()) throw cybozu::Exception("Socket:accept") << cybozu::NetErrorNo();
+		if (sd == INVALID_SOCKET) throw cybozu::Exception("Socket:accept") << cybozu::NetErrorNo();
+		client.close(cybozu::DontThrow);
+		client.sd_ = sd;
+		if (paddr) paddr->verify();
 	}
 
 	template<typename T>
-- 
2.43.0


From 0898350a91c9321dc819d92a2373dbb86f585ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:57 +0000
Subject: [PATCH 03/42] fix: Epoll::init must not lose an open descriptor;
 Epoll and its guard must not be copied

---
 include/cybozu/socket.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/cybozu/socket.hpp b/include/cybozu/socket.hpp
index 0464c9b..ed3f0f0 100644
--- a/include/cybozu/socket.hpp
+++ b/include/cybozu/socket.hpp
@@ -84,6 +84,8 @@ struct EpollEvent {
 
 class Epoll {
 	int efd_;
+	Epoll(const Epoll&);
+	void operator=(const Epoll&);
 	bool verify(const char *msg, int ret, int *err) const {
 		if (ret >= 0) return true;
 		if (err == 0) throw cybozu::Exception(msg) << cybozu::NetErrorNo();
@@ -94,6 +96,7 @@ public:
 	Epoll() : efd_(-1) {}
 	bool init(int *err = 0)
 	{
+		if (efd_ >= 0) ::close(efd_);
 		efd_ = ::epoll_create1(0);
 		return verify("Epoll:init", efd_, err);
 	}
@@ -151,6 +154,9 @@ struct AutoLock {
 		int err;
 		ep_.del(fd_, &err);
 	}
+private:
+	AutoLock(const AutoLock&);
+	void operator=(const AutoLock&);
 };
 
 } // cybozu::experimental
-- 
2.43.0


From 6693157961db54262c76842b49d6fa2a4e372788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:57 +0000
Subject: [PATCH 04/42] fix: Logger::openFile leaked the new stream if closing
 the old one fails

---
 include/cybozu/log.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/log.hpp b/include/cybozu/log.hpp
index 21a16fe..593e090 100644
--- a/include/cybozu/log.hpp
+++ b/include/cybozu/log.hpp
@@ -94,7 +94,10 @@ public:
 		fp = fopen(path.c_str(), "a+b");
 #endif
 		if (fp == 0) throw cybozu::Exception("cybozu:Logger:openFile") << path;
-		if (!closeFile()) throw cybozu::Exception("cybozu:Logger:openFile:fail to closeFile");
+		if (!closeFile()) {
+			fclose(fp);
+			throw cybozu::Exception("cybozu:Logger:openFile:fail to closeFile");
+		}
 		fp_ = fp;
 		doClose_ = true;
 		useSyslog_ = false;
-- 
2.43.0


From 174aab727909fb2df2ecf351ba9d2daee35c6b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:57 +0000
Subject: [PATCH 05/42] fix: Logger must not be copied (closes the stream
 twice)

---
 include/cybozu/log.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cybozu/log.hpp b/include/cybozu/log.hpp
index 593e090..b4f57f4 100644
--- a/include/cybozu/log.hpp
+++ b/include/cybozu/log.hpp
@@ -29,6 +29,8 @@ class Logger {
 	bool doClose_;
 	bool useSyslog_;
 	bool useMsec_;
+	Logger(const Logger&);
+	void operator=(const Logger&);
 public:
 	Logger()
 		: priority_(cybozu::LogInfo)
-- 
2.43.0


From 9f1bb862178e3f0b1fac1f25d5991b8718617398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:57 +0000
Subject: [PATCH 06/42] fix: File destructor skipped close if sync fails;
 constructor leaked the descriptor if seek fails

---
 include/cybozu/file.hpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/file.hpp b/include/cybozu/file.hpp
index e177a2c..63b808c 100644
--- a/include/cybozu/file.hpp
+++ b/include/cybozu/file.hpp
@@ -127,7 +127,17 @@ class File {
 		setHandle(name, mode);
 		if (isOpen()) {
 			if (mode & std::ios::app) {
-				seek(getSize(), std::ios::beg);
+				try {
+					seek(getSize(), std::ios::beg);
+				} catch (...) {
+#ifdef _WIN32
+					::CloseHandle(hdl_);
+#else
+					::close(hdl_);
+#endif
+					hdl_ = INVALID_HANDLE_VALUE;
+					throw;
+				}
 			}
 			return;
 		}
@@ -163,6 +173,12 @@ public:
 		if (!doClose_) return;
 		try {
 			sync();
+		} catch (std::exception& e) {
+			fprintf(stderr, "File:dstr:%s\n", e.what());
+		} catch (...) {
+			fprintf(stderr, "File:dstr:unknown\n");
+		}
+		try {
 			close();
 		} catch (std::exception& e) {
 			fprintf(stderr, "File:dstr:%s\n", e.what());
-- 
2.43.0


From dbce016ac01fe51bbfc4121fe500a34ae7b381dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:57 +0000
Subject: [PATCH 07/42] fix: crypto::Hash and crypto::Cipher must not be copied
 and leaked the context when the constructor throws

---
 include/cybozu/crypto.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/include/cybozu/crypto.hpp b/include/cybozu/crypto.hpp
index 78c95e0..49b9b0a 100644
--- a/include/cybozu/crypto.hpp
+++ b/include/cybozu/crypto.hpp
@@ -55,6 +55,8 @@ private:
 	size_t hashSize_;
 #if CYBOZU_USE_OPENSSL_NEW_HASH == 1
 	EVP_MD_CTX *ctx_;
+	Hash(const Hash&);
+	void operator=(const Hash&);
 	void setCTX(const char *name)
 	{
 		const EVP_MD *md = EVP_get_digestbyname(name);
@@ -120,7 +122,16 @@ public:
 		, ctx_(EVP_MD_CTX_new())
 #endif
 	{
+#if CYBOZU_USE_OPENSSL_NEW_HASH == 1
+		try {
+			reset();
+		} catch (...) {
+			EVP_MD_CTX_free(ctx_);
+			throw;
+		}
+#else
 		reset();
+#endif
 	}
 #if CYBOZU_USE_OPENSSL_NEW_HASH == 1
 	~Hash()
@@ -269,6 +280,8 @@ public:
 class Cipher {
 	const EVP_CIPHER *cipher_;
 	EVP_CIPHER_CTX *ctx_;
+	Cipher(const Cipher&);
+	void operator=(const Cipher&);
 public:
 	enum Name {
 		N_AES128_CBC,
@@ -309,6 +322,7 @@ public:
 		case N_AES192_ECB: cipher_ = EVP_aes_192_ecb(); break;
 		case N_AES256_ECB: cipher_ = EVP_aes_256_ecb(); break;
 		default:
+			EVP_CIPHER_CTX_free(ctx_);
 			throw cybozu::Exception("crypto:Cipher:Cipher:name") << (int)name;
 		}
 	}
-- 
2.43.0


From e42a6916a4955070ad1278ebd36dfeae3e5dea78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:57 +0000
Subject: [PATCH 08/42] fix: hash contexts of sha2.hpp must not be copied
 (double free)

---
 include/cybozu/sha2.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cybozu/sha2.hpp b/include/cybozu/sha2.hpp
index b977a4c..93b296c 100644
--- a/include/cybozu/sha2.hpp
+++ b/include/cybozu/sha2.hpp
@@ -82,6 +82,9 @@ struct NewHash {
 		assert(len == MD_SIZE);
 		return MD_SIZE;
 	}
+private:
+	NewHash(const NewHash&);
+	void operator=(const NewHash&);
 };
 
 } // local
-- 
2.43.0


From 595d3ecbbdfcb06cb99f1584876f235824b9bc5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:57 +0000
Subject: [PATCH 09/42] fix: ZlibCompressor leaked the compression state if
 writing the gzip header throws

---
 include/cybozu/zlib.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/zlib.hpp b/include/cybozu/zlib.hpp
index 41835f0..f2bc3bc 100644
--- a/include/cybozu/zlib.hpp
+++ b/include/cybozu/zlib.hpp
@@ -69,7 +69,12 @@ public:
 				throw cybozu::Exception("zlib:ZlibCompressorT:deflateInit2") << zlib_local::safePtr(z_.msg);
 			}
 			char header[] = "\x1f\x8b\x08\x00\x00\x00\x00\x00\x00\x03"; /* OS_CODE = 0x03(Unix) */
-			write_os(header, 10);
+			try {
+				write_os(header, 10);
+			} catch (...) {
+				deflateEnd(&z_);
+				throw;
+			}
 		} else {
 			if (deflateInit(&z_, compressionLevel) != Z_OK) {
 				throw cybozu::Exception("zlib:ZlibCompressorT:deflateInit") << zlib_local::safePtr(z_.msg);
-- 
2.43.0


From 81610ce8ba4e802b31b93557cea06aaa282ba9af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:57 +0000
Subject: [PATCH 10/42] fix: MiniXml leaked the tree if the constructor throws
 or parse is called again

---
 include/cybozu/minixml.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/cybozu/minixml.hpp b/include/cybozu/minixml.hpp
index e22c891..077bcb9 100644
--- a/include/cybozu/minixml.hpp
+++ b/include/cybozu/minixml.hpp
@@ -406,6 +406,8 @@ class MiniXml {
 		is.skipSpace();
 		std::string w = is.getWord(minixml::isName);
 		if (w != "<?xml") throw cybozu::Exception("xml:readHeader:") << w;
+		delete root_;
+		root_ = 0;
 		root_ = new minixml::Node();
 		is.parseAttributes(xmlAttr_, false);
 	}
@@ -419,7 +421,12 @@ public:
 	MiniXml(const char *begin, const char *end)
 		: root_(0)
 	{
-		parse(begin, end);
+		try {
+			parse(begin, end);
+		} catch (...) {
+			delete root_;
+			throw;
+		}
 	}
 	template<class InputStream>
 	void parse(InputStream& is)
-- 
2.43.0


From 86fe6f20dfb5bcd2cf3986d2f2e7435e878f420a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:57 +0000
Subject: [PATCH 11/42] fix: minixml::Node must not be copied (children deleted
 twice)

---
 include/cybozu/minixml.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cybozu/minixml.hpp b/include/cybozu/minixml.hpp
index 077bcb9..515606c 100644
--- a/include/cybozu/minixml.hpp
+++ b/include/cybozu/minixml.hpp
@@ -128,6 +128,10 @@ struct Node {
 	std::string content;
 	Node *parent;
 	NodeList child;
+private:
+	Node(const Node&);
+	void operator=(const Node&);
+public:
 	Node()
 		: parent(0)
 	{
-- 
2.43.0


From 486ab68f0c67ae2a866b31c97ea82507c9aa508f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:57 +0000
Subject: [PATCH 12/42] fix: process::Pipe::init must not lose open
 descriptors; Pipe must not be copied

---
 include/cybozu/process.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cybozu/process.hpp b/include/cybozu/process.hpp
index 62c264b..c909cf0 100644
--- a/include/cybozu/process.hpp
+++ b/include/cybozu/process.hpp
@@ -40,6 +40,8 @@ const Handle InvalidHandle = (Handle)-1;
 #ifndef _WIN32
 class Pipe {
 	int fd_[2];
+	Pipe(const Pipe&);
+	void operator=(const Pipe&);
 public:
 	enum Mode {
 		Read = 0,
@@ -51,6 +53,8 @@ public:
 	}
 	bool init()
 	{
+		close(Read);
+		close(Write);
 		if (::pipe (fd_) < 0) {
 			return false;
 		}
-- 
2.43.0


From 9848e0506305955f156d1c09b0fbeaa1901c4227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:57 +0000
Subject: [PATCH 13/42] fix: AutoLockT must not be copied (unlocks twice)

---
 include/cybozu/mutex.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/mutex.hpp b/include/cybozu/mutex.hpp
index 508fb57..eb6e59a 100644
--- a/include/cybozu/mutex.hpp
+++ b/include/cybozu/mutex.hpp
@@ -103,6 +103,7 @@ public:
 	}
 private:
 	T& t_;
+	AutoLockT(const AutoLockT&);
 	AutoLockT& operator=(const AutoLockT&);
 };
 
-- 
2.43.0


From c883dcd8e09695e73511fa782a9fc7f0b74787b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:57 +0000
Subject: [PATCH 14/42] fix: stacktrace_local::AutoFree must not be copied
 (double free)

---
 include/cybozu/stacktrace.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cybozu/stacktrace.hpp b/include/cybozu/stacktrace.hpp
index 6c280ea..c75758f 100644
--- a/include/cybozu/stacktrace.hpp
+++ b/include/cybozu/stacktrace.hpp
@@ -70,6 +70,8 @@ struct DummyCall {
 
 class AutoFree {
 	void *p_;
+	AutoFree(const AutoFree&);
+	void operator=(const AutoFree&);
 public:
 	AutoFree(void *p)
 		: p_(p)
-- 
2.43.0


From 9e164b8725792f407a686cccb54ebf31c093e07a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:57 +0000
Subject: [PATCH 15/42] fix: Tls must not be copied (deletes the key twice)

---
 include/cybozu/tls.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cybozu/tls.hpp b/include/cybozu/tls.hpp
index d520bb9..8f517af 100644
--- a/include/cybozu/tls.hpp
+++ b/include/cybozu/tls.hpp
@@ -86,6 +86,8 @@ inline bool Term(TlsIndex idx)
 */
 class Tls {
 	tls::TlsIndex idx_;
+	Tls(const Tls&);
+	void operator=(const Tls&);
 	bool isValid() const
 	{
 		return idx_ != tls::invalidTlsIndex;
-- 
2.43.0


From b08f36ffc2f5f9f0c0528ba86ebb63c5aa98eba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:57:57 +0000
Subject: [PATCH 16/42] fix: nlp::Mecab must not be copied (deletes the tagger
 twice)

---
 include/cybozu/nlp/mecab.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cybozu/nlp/mecab.hpp b/include/cybozu/nlp/mecab.hpp
index 1d90f55..4c273a0 100644
--- a/include/cybozu/nlp/mecab.hpp
+++ b/include/cybozu/nlp/mecab.hpp
@@ -91,6 +91,8 @@ struct Mecab {
 private:
 	MeCab::Tagger *tagger_;
 	const MeCab::Node *node_;
+	Mecab(const Mecab&);
+	void operator=(const Mecab&);
 };
 
 } } // cybozu::nlp
-- 
2.43.0


From 7fcc01b3c3aa3c3b1500a07832f06664b965422f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:52 +0000
Subject: [PATCH 17/42] fix: crypto::Hash ignored failures of the OpenSSL
 digest functions

---
 include/cybozu/crypto.hpp | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/cybozu/crypto.hpp b/include/cybozu/crypto.hpp
index 49b9b0a..c22db01 100644
--- a/include/cybozu/crypto.hpp
+++ b/include/cybozu/crypto.hpp
@@ -64,7 +64,9 @@ private:
 			throw cybozu::Exception("EVP_get_digestbyname") << name;
 		}
 		EVP_MD_CTX_reset(ctx_);
-		EVP_DigestInit_ex(ctx_, md, NULL);
+		if (EVP_DigestInit_ex(ctx_, md, NULL) != 1) {
+			throw cybozu::Exception("EVP_DigestInit_ex") << name;
+		}
 	}
 #else
 	union {
@@ -123,6 +125,7 @@ public:
 #endif
 	{
 #if CYBOZU_USE_OPENSSL_NEW_HASH == 1
+		if (ctx_ == 0) throw cybozu::Exception("crypto:Hash:EVP_MD_CTX_new");
 		try {
 			reset();
 		} catch (...) {
@@ -142,7 +145,9 @@ public:
 	void update(const void *buf, size_t bufSize)
 	{
 #if CYBOZU_USE_OPENSSL_NEW_HASH == 1
-		EVP_DigestUpdate(ctx_, buf, bufSize);
+		if (EVP_DigestUpdate(ctx_, buf, bufSize) != 1) {
+			throw cybozu::Exception("crypto:Hash:EVP_DigestUpdate");
+		}
 #else
 		switch (name_) {
 		case N_SHA1:   SHA1_Update(&ctx_.sha1, buf, bufSize);     break;
@@ -187,7 +192,9 @@ public:
 		unsigned char *md = reinterpret_cast<unsigned char*>(out);
 #if CYBOZU_USE_OPENSSL_NEW_HASH == 1
 		unsigned int len;
-		EVP_DigestFinal_ex(ctx_, md, &len);
+		if (EVP_DigestFinal_ex(ctx_, md, &len) != 1) {
+			throw cybozu::Exception("crypto:Hash:EVP_DigestFinal_ex");
+		}
 #else
 		switch (name_) {
 		case N_SHA1:   SHA1_Final(md, &ctx_.sha1);     break;
-- 
2.43.0


From f72be103c4e35c09a8636adffce2330e22685d15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:52 +0000
Subject: [PATCH 18/42] fix: digest of sha2.hpp reported success if
 EVP_DigestFinal_ex fails

---
 include/cybozu/sha2.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/sha2.hpp b/include/cybozu/sha2.hpp
index 93b296c..b4572b8 100644
--- a/include/cybozu/sha2.hpp
+++ b/include/cybozu/sha2.hpp
@@ -78,7 +78,7 @@ struct NewHash {
 		if (mdSize < MD_SIZE) return 0;
 		update(buf, bufSize);
 		unsigned int len;
-		EVP_DigestFinal_ex(mdctx_, (unsigned char*)md, &len);
+		if (EVP_DigestFinal_ex(mdctx_, (unsigned char*)md, &len) != 1) return 0;
 		assert(len == MD_SIZE);
 		return MD_SIZE;
 	}
-- 
2.43.0


From 36f202c044da9bd696299e0c66a790c4d96a5aa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:52 +0000
Subject: [PATCH 19/42] fix: RandomGenerator::read truncated the byte count to
 int

---
 include/cybozu/random_generator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/random_generator.hpp b/include/cybozu/random_generator.hpp
index 303b31c..be0f0d6 100644
--- a/include/cybozu/random_generator.hpp
+++ b/include/cybozu/random_generator.hpp
@@ -92,7 +92,7 @@ private:
 			return;
 		}
 		const size_t byteSize = sizeof(T) * bufNum;
-		*pb = ::fread(buf, 1, (int)byteSize, fp_) == byteSize;
+		*pb = ::fread(buf, 1, byteSize, fp_) == byteSize;
 	}
 private:
 	FILE *fp_;
-- 
2.43.0


From 0aabf1ee2a8e332b701b62eed80f1156e50e6bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:52 +0000
Subject: [PATCH 20/42] fix: process::Start used an uninitialised limit and
 closed the pipe reporting a failing execv

---
 include/cybozu/process.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cybozu/process.hpp b/include/cybozu/process.hpp
index c909cf0..551616f 100644
--- a/include/cybozu/process.hpp
+++ b/include/cybozu/process.hpp
@@ -70,6 +70,7 @@ public:
 			fd_[mode] = -1;
 		}
 	}
+	int getFd(Mode mode) const { return fd_[mode]; }
 	int write(const char* buf, size_t size)
 	{
 		return ::write(fd_[Write], buf, size);
@@ -173,9 +174,10 @@ static inline bool Start(Handle* hdl, const std::string& exe, const std::vector<
 		}
 		{
 			const int ret = static_cast<int>(sysconf(_SC_OPEN_MAX));
-			const int maxFd = ret < 0 ? 1024 : maxFd;
+			const int maxFd = ret < 0 ? 1024 : ret;
+			const int statusFd = pipe.getFd(Pipe::Write);
 			for (int i = 3; i < maxFd; i++) {
-				close(i);
+				if (i != statusFd) close(i);
 			}
 		}
 
-- 
2.43.0


From d7faeecf266b9e41c566b818a9fc9f37bd7c6d47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:18 +0000
Subject: [PATCH 21/42] fix: ssl::ClientSocket::read no longer spins at end of
 stream

---
 include/cybozu/ssl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/ssl.hpp b/include/cybozu/ssl.hpp
index 83cbf24..c07cbbb 100644
--- a/include/cybozu/ssl.hpp
+++ b/include/cybozu/ssl.hpp
@@ -156,6 +156,7 @@ public:
 		char *p = (char *)buf;
 		while (bufSize > 0) {
 			size_t readSize = readSome(p, bufSize);
+			if (readSize == 0) throw cybozu::Exception("ssl:ClientSocket:read:readSize is zero");
 			p += readSize;
 			bufSize -= readSize;
 		}
-- 
2.43.0


From ba878f41a1f9e1864eee9f66b4357e418d2bac98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:31:18 +0000
Subject: [PATCH 22/42] fix: File::read no longer spins at end of file

---
 include/cybozu/file.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/file.hpp b/include/cybozu/file.hpp
index 63b808c..ec92df4 100644
--- a/include/cybozu/file.hpp
+++ b/include/cybozu/file.hpp
@@ -309,6 +309,7 @@ public:
 		char *p = static_cast<char *>(buf);
 		while (bufSize > 0) {
 			size_t readSize = readSome(p, bufSize);
+			if (readSize == 0) throw cybozu::Exception("File:read:readSize is zero") << name_ << bufSize;
 			p += readSize;
 			bufSize -= readSize;
 		}
-- 
2.43.0


From c7d3f01cf77ea58f71ac67f046ef143e4e0f459a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:13 +0000
Subject: [PATCH 23/42] fix: array.hpp includes <algorithm> for std::swap

---
 include/cybozu/array.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/array.hpp b/include/cybozu/array.hpp
index 30df366..018cbd0 100644
--- a/include/cybozu/array.hpp
+++ b/include/cybozu/array.hpp
@@ -7,6 +7,7 @@
 	@author MITSUNARI Shigeo(@herumi)
 */
 #include <new>
+#include <algorithm>
 #include <utility>
 #ifdef _WIN32
 	#include <malloc.h>
-- 
2.43.0


From 1ef73bbd15e0cfece014d27b8bb6861c0bc2727c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:13 +0000
Subject: [PATCH 24/42] fix: bfd.hpp includes <stdio.h> for perror

---
 include/cybozu/bfd.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/bfd.hpp b/include/cybozu/bfd.hpp
index e4f700b..fdd2c84 100644
--- a/include/cybozu/bfd.hpp
+++ b/include/cybozu/bfd.hpp
@@ -8,6 +8,7 @@
 #ifdef _MSC_VER
 	#error "not supported"
 #endif
+#include <stdio.h>
 #include <unistd.h>
 #include <bfd.h>
 #include <string>
-- 
2.43.0


From fe3924520efe983ca3914ca119407caed92cca02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:13 +0000
Subject: [PATCH 25/42] fix: tfidf.hpp includes the headers it uses

---
 include/cybozu/nlp/tfidf.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cybozu/nlp/tfidf.hpp b/include/cybozu/nlp/tfidf.hpp
index be31cfc..28121ce 100644
--- a/include/cybozu/nlp/tfidf.hpp
+++ b/include/cybozu/nlp/tfidf.hpp
@@ -8,6 +8,8 @@
 #include <set>
 #include <map>
 #include <string>
+#include <fstream>
+#include <math.h>
 #include <stdio.h>
 #include <cybozu/string_operation.hpp>
 #include <cybozu/nlp/sparse.hpp>
-- 
2.43.0


From f5d4d42e00791e35c51618d71dfb404ec5b8d275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:13 +0000
Subject: [PATCH 26/42] fix: top_score.hpp includes the headers it uses

---
 include/cybozu/nlp/top_score.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cybozu/nlp/top_score.hpp b/include/cybozu/nlp/top_score.hpp
index 7b4e446..318f168 100644
--- a/include/cybozu/nlp/top_score.hpp
+++ b/include/cybozu/nlp/top_score.hpp
@@ -4,6 +4,8 @@
 	@brief a class to get top n score
 	@author MITSUNARI Shigeo(@herumi)
 */
+#include <stddef.h>
+#include <algorithm>
 #include <vector>
 
 namespace cybozu { namespace nlp {
-- 
2.43.0


From abc4c1ced79613c8494605bb0a55fb282e4c20d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:13 +0000
Subject: [PATCH 27/42] fix: quit_signal_handler.hpp includes inttype.hpp for
 CYBOZU_NOEXCEPT

---
 include/cybozu/quit_signal_handler.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/quit_signal_handler.hpp b/include/cybozu/quit_signal_handler.hpp
index 4ac2fea..f2e380a 100644
--- a/include/cybozu/quit_signal_handler.hpp
+++ b/include/cybozu/quit_signal_handler.hpp
@@ -15,6 +15,7 @@
 #endif
 #include <stdio.h>
 #include <stdlib.h>
+#include <cybozu/inttype.hpp>
 
 namespace cybozu {
 
-- 
2.43.0


From a6ec5b283ef5aba439038ca38334916917b9a287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:13 +0000
Subject: [PATCH 28/42] fix: sha1.hpp includes <stdio.h> for snprintf

---
 include/cybozu/sha1.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/sha1.hpp b/include/cybozu/sha1.hpp
index 4e4820d..12e440c 100644
--- a/include/cybozu/sha1.hpp
+++ b/include/cybozu/sha1.hpp
@@ -12,6 +12,7 @@
 #include <string>
 #include <algorithm>
 #include <memory.h>
+#include <stdio.h>
 #include <assert.h>
 
 namespace cybozu {
-- 
2.43.0


From dd2a38be2d8da1dd48a59112d986724d5dc82f31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:13 +0000
Subject: [PATCH 29/42] fix: stacktrace.hpp includes <stdio.h> for snprintf

---
 include/cybozu/stacktrace.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/stacktrace.hpp b/include/cybozu/stacktrace.hpp
index c75758f..41ce8c4 100644
--- a/include/cybozu/stacktrace.hpp
+++ b/include/cybozu/stacktrace.hpp
@@ -7,6 +7,7 @@
 #include <string>
 #include <vector>
 #include <cybozu/itoa.hpp>
+#include <stdio.h>
 #include <stdlib.h>
 #include <iosfwd>
 
-- 
2.43.0


From 673af46c9337d0bc5894a8d0729990cfc901e6d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:13 +0000
Subject: [PATCH 30/42] fix: siphash24 is inline

---
 include/cybozu/siphash.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/siphash.hpp b/include/cybozu/siphash.hpp
index bbb49de..40147cb 100644
--- a/include/cybozu/siphash.hpp
+++ b/include/cybozu/siphash.hpp
@@ -35,7 +35,7 @@ inline void doubleRound(uint64_t &v0, uint64_t &v1, uint64_t &v2, uint64_t &v3)
 
 } // cybozu::siphash_local
 
-uint64_t siphash24(const void *src, size_t srcSize, uint64_t k0 = uint64_t(0x0706050403020100ULL), uint64_t k1 = uint64_t(0x0f0e0d0c0b0a0908ULL))
+inline uint64_t siphash24(const void *src, size_t srcSize, uint64_t k0 = uint64_t(0x0706050403020100ULL), uint64_t k1 = uint64_t(0x0f0e0d0c0b0a0908ULL))
 {
 	uint64_t v0 = k0 ^ uint64_t(0x736f6d6570736575ULL);
 	uint64_t v1 = k1 ^ uint64_t(0x646f72616e646f6dULL);
-- 
2.43.0


From f67e2b12e5a0bcef6a53646673b80643b7b9bf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:06:13 +0000
Subject: [PATCH 31/42] fix: toDevNull is inline

---
 include/cybozu/process.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cybozu/process.hpp b/include/cybozu/process.hpp
index 551616f..87cc821 100644
--- a/include/cybozu/process.hpp
+++ b/include/cybozu/process.hpp
@@ -86,7 +86,7 @@ public:
 	}
 };
 
-bool toDevNull(int fd, int flags)
+inline bool toDevNull(int fd, int flags)
 {
 	int newFd = open("/dev/null", flags);
 
-- 
2.43.0


From d3f3644f018214fad4eddde32aaaf4f91f6195a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:25:12 +0000
Subject: [PATCH 32/42] fix: Cipher::setup rejects an initialization vector
 shorter than the cipher reads

---
 include/cybozu/crypto.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cybozu/crypto.hpp b/include/cybozu/crypto.hpp
index c22db01..163b256 100644
--- a/include/cybozu/crypto.hpp
+++ b/include/cybozu/crypto.hpp
@@ -347,6 +347,10 @@ public:
 		if (keyLen != expectedKeyLen) {
 			throw cybozu::Exception("crypto:Cipher:setup:keyLen") << keyLen << expectedKeyLen;
 		}
+		const int expectedIvLen = EVP_CIPHER_iv_length(cipher_);
+		if (iv.size() < static_cast<size_t>(expectedIvLen)) {
+			throw cybozu::Exception("crypto:Cipher:setup:ivLen") << iv.size() << expectedIvLen;
+		}
 
 		int ret = EVP_CipherInit_ex(ctx_, cipher_, NULL, cybozu::cast<const uint8_t*>(key.c_str()), cybozu::cast<const uint8_t*>(iv.c_str()), mode == Encoding ? 1 : 0);
 		if (ret != 1) {
-- 
2.43.0


From 4e902cfb03ec4e476c2009cd433b404fc6643146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:04 +0000
Subject: [PATCH 33/42] fix: Time(false) must not leave its members
 indeterminate

---
 include/cybozu/time.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cybozu/time.hpp b/include/cybozu/time.hpp
index fbf7355..74c5a3b 100644
--- a/include/cybozu/time.hpp
+++ b/include/cybozu/time.hpp
@@ -32,6 +32,8 @@ public:
 	{
 	}
 	explicit Time(bool doSet)
+		: time_(0)
+		, msec_(0)
 	{
 		if (doSet) setCurrentTime();
 	}
-- 
2.43.0


From 26ccaaef85304e045d8d54f6df48f0bae00f9c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:04 +0000
Subject: [PATCH 34/42] fix: initialise all members of the end iterators of
 SparseVector

---
 include/cybozu/nlp/sparse.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cybozu/nlp/sparse.hpp b/include/cybozu/nlp/sparse.hpp
index 3442ff1..3b1a4dd 100644
--- a/include/cybozu/nlp/sparse.hpp
+++ b/include/cybozu/nlp/sparse.hpp
@@ -94,6 +94,8 @@ public:
 		}
 		Curr(size_t vecPos)
 			: vecPos_(vecPos)
+			, val_(0)
+			, pos_(0)
 		{
 		}
 	};
@@ -197,6 +199,7 @@ class SparseVector {
 		// for end
 		ConstIterator(size_t vecPos)
 			: cur_(vecPos)
+			, self_(0)
 		{
 		}
 		size_t pos() const { return self_->posTbl_.get(cur_); }
-- 
2.43.0


From c97bea3c7c210fdd065b4e146856e4c0837dcc89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:06:51 +0000
Subject: [PATCH 35/42] fix: atoi accepted text that merely starts with the
 minimum, such as -1289 or -2147483648abc

---
 include/cybozu/atoi.hpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/cybozu/atoi.hpp b/include/cybozu/atoi.hpp
index 3b5970a..77f3d59 100644
--- a/include/cybozu/atoi.hpp
+++ b/include/cybozu/atoi.hpp
@@ -14,8 +14,8 @@ namespace cybozu {
 
 namespace atoi_local {
 
-template<typename T, size_t n>
-T convertToInt(bool *b, const char *p, size_t size, const char (&max)[n], T min, T overflow1, char overflow2)
+template<typename T>
+T convertToInt(bool *b, const char *p, size_t size, T min, T overflow1, char overflow2)
 {
 	if (size > 0 && *p) {
 		bool isMinus = false;
@@ -27,11 +27,6 @@ T convertToInt(bool *b, const char *p, size_t size, const char (&max)[n], T min,
 		if (i < size && p[i]) {
 			// skip leading zero
 			while (i < size && p[i] == '0') i++;
-			// check minimum
-			if (isMinus && size - i >= n - 1 && memcmp(max, &p[i], n - 1) == 0) {
-				if (b) *b = true;
-				return min;
-			}
 			T x = 0;
 			for (;;) {
 				unsigned char c;
@@ -39,6 +34,11 @@ T convertToInt(bool *b, const char *p, size_t size, const char (&max)[n], T min,
 					if (b) *b = true;
 					return isMinus ? -x : x;
 				}
+				// check minimum
+				if (isMinus && x == overflow1 && c == overflow2 && (i + 1 == size || p[i + 1] == '\0')) {
+					if (b) *b = true;
+					return min;
+				}
 				unsigned int y = c - '0';
 				if (y > 9 || x > overflow1 || (x == overflow1 && c >= overflow2)) {
 					break;
@@ -156,7 +156,7 @@ public:
 	}
 	inline operator signed char() const
 	{
-		return atoi_local::convertToInt<signed char>(b_, p_, size_, "128", -128, 12, '8');
+		return atoi_local::convertToInt<signed char>(b_, p_, size_, -128, 12, '8');
 	}
 	inline operator unsigned char() const
 	{
@@ -164,7 +164,7 @@ public:
 	}
 	inline operator short() const
 	{
-		return atoi_local::convertToInt<short>(b_, p_, size_, "32768", -32768, 3276, '8');
+		return atoi_local::convertToInt<short>(b_, p_, size_, -32768, 3276, '8');
 	}
 	inline operator unsigned short() const
 	{
@@ -172,7 +172,7 @@ public:
 	}
 	inline operator int() const
 	{
-		return atoi_local::convertToInt<int>(b_, p_, size_, "2147483648", (std::numeric_limits<int>::min)() /* -2147483648 */, 214748364, '8');
+		return atoi_local::convertToInt<int>(b_, p_, size_, (std::numeric_limits<int>::min)() /* -2147483648 */, 214748364, '8');
 	}
 	inline operator unsigned int() const
 	{
@@ -180,7 +180,7 @@ public:
 	}
 	inline operator long long() const
 	{
-		return atoi_local::convertToInt<long long>(b_, p_, size_, "9223372036854775808", CYBOZU_LLONG_MIN, 922337203685477580LL, '8');
+		return atoi_local::convertToInt<long long>(b_, p_, size_, CYBOZU_LLONG_MIN, 922337203685477580LL, '8');
 	}
 	inline operator unsigned long long() const
 	{
-- 
2.43.0


From 24bf64dda78d48e6cefacd1cf385f6f1e54145ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:21 +0000
Subject: [PATCH 36/42] fix: GetCharFromUtf16 must reject a lone trail
 surrogate

---
 include/cybozu/string.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/string.hpp b/include/cybozu/string.hpp
index fdb41c0..ca0d07d 100644
--- a/include/cybozu/string.hpp
+++ b/include/cybozu/string.hpp
@@ -199,6 +199,7 @@ bool GetCharFromUtf16(Char& c, Iterator& begin, const Iterator& end)
 		static inline bool isTrail(Char c) { return (c & 0xfffffc00) == 0xdc00; }
 	};
 	Char16 c0 = *begin++;
+	if (string_local::isTrail(c0)) return false;
 	if (!string_local::isLead(c0)) {
 		c = c0;
 		return true;
-- 
2.43.0


From 1f62bdb75a56969b72523a2a0bed287d9a046256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:21 +0000
Subject: [PATCH 37/42] fix: toUtf16 must not encode surrogates or negative
 values

---
 include/cybozu/string.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cybozu/string.hpp b/include/cybozu/string.hpp
index ca0d07d..65b04a9 100644
--- a/include/cybozu/string.hpp
+++ b/include/cybozu/string.hpp
@@ -244,6 +244,7 @@ inline int toUtf8(char out[4], Char c)
 
 inline int toUtf16(Char16 out[2], Char c)
 {
+	if (c < 0 || (0xd7ff < c && c <= 0xdfff)) return 0;
 	if (c <= 0xffff) {
 		out[0] = static_cast<Char16>(c);
 		return 1;
-- 
2.43.0


From ab165cff0a7ba03179d48ccd51bb4bc63ddc3fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:21 +0000
Subject: [PATCH 38/42] fix: negative values are not characters (GetCharSize,
 IsValidChar, toUtf8)

---
 include/cybozu/string.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cybozu/string.hpp b/include/cybozu/string.hpp
index 65b04a9..3afeec8 100644
--- a/include/cybozu/string.hpp
+++ b/include/cybozu/string.hpp
@@ -113,6 +113,7 @@ namespace string {
 */
 inline int GetCharSize(Char c)
 {
+	if (c < 0) return 0;
 	if (c <= 0x7f) return 1;
 	if (c <= 0x7ff) return 2;
 	if (c <= 0xd7ff) return 3;
@@ -217,6 +218,7 @@ bool GetCharFromUtf16(Char& c, Iterator& begin, const Iterator& end)
 
 inline int toUtf8(char out[4], Char c)
 {
+	if (c < 0) return 0;
 	if (c <= 0x7f) {
 		out[0] = static_cast<char>(c);
 		return 1;
-- 
2.43.0


From e333539a9ed379a15a22b660223ef1b3235edd48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:32:13 +0000
Subject: [PATCH 39/42] fix: load of set, map and unordered_map replaces the
 contents as load of vector does

---
 include/cybozu/serializer.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/cybozu/serializer.hpp b/include/cybozu/serializer.hpp
index 8deb19a..aa223c6 100644
--- a/include/cybozu/serializer.hpp
+++ b/include/cybozu/serializer.hpp
@@ -294,6 +294,7 @@ void load(Container<K, Pred, Alloc>& x, InputStream& is, typename stream_local::
 {
 	size_t size;
 	load(size, is);
+	x.clear();
 	for (size_t i = 0; i < size; i++) {
 		K t;
 		load(t, is);
@@ -318,6 +319,7 @@ void load(Container<K, V, Pred, Alloc>& x, InputStream& is, typename stream_loca
 	typedef Container<K, V, Pred, Alloc> Map;
 	size_t size;
 	load(size, is);
+	x.clear();
 	for (size_t i = 0; i < size; i++) {
 		std::pair<typename Map::key_type, typename Map::mapped_type> vt;
 		load(vt.first, is);
@@ -344,6 +346,7 @@ void load(Container<K, V, Hash, Pred, Alloc>& x, InputStream& is, typename strea
 	typedef Container<K, V, Hash, Pred, Alloc> Map;
 	size_t size;
 	load(size, is);
+	x.clear();
 //	x.reserve(size); // tr1::unordered_map may not have reserve
 	cybozu::serializer_local::reserve_if_exists(x, size);
 	for (size_t i = 0; i < size; i++) {
-- 
2.43.0


From 998d2a6137cf528cb4409a37fe87a8fcd113138d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:17 +0000
Subject: [PATCH 40/42] fix: parallel_for: report exceptions of any type and
 with empty text

---
 include/cybozu/parallel.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cybozu/parallel.hpp b/include/cybozu/parallel.hpp
index 2d0afec..7c7a901 100644
--- a/include/cybozu/parallel.hpp
+++ b/include/cybozu/parallel.hpp
@@ -43,6 +43,10 @@ struct Thread : public cybozu::ThreadBase {
 				if (!(*t_)(i, threadIdx_)) break;
 			} catch (std::exception& e) {
 				err_ = e.what();
+				if (err_.empty()) err_ = "unknown error";
+				break;
+			} catch (...) {
+				err_ = "unknown exception";
 				break;
 			}
 		}
-- 
2.43.0


From dfef453e43e06a2346c4f008315d17b8568e2e5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:02:17 +0000
Subject: [PATCH 41/42] fix: parallel_util::Thread: wait for the thread before
 its members are destroyed

---
 include/cybozu/parallel.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/cybozu/parallel.hpp b/include/cybozu/parallel.hpp
index 7c7a901..b2bd149 100644
--- a/include/cybozu/parallel.hpp
+++ b/include/cybozu/parallel.hpp
@@ -28,6 +28,10 @@ struct Thread : public cybozu::ThreadBase {
 		, threadIdx_(0)
 	{
 	}
+	~Thread()
+	{
+		joinThread(); // the thread uses the members of this class
+	}
 	void init(T& t, N begin, N end, N threadIdx)
 	{
 		t_ = &t;
-- 
2.43.0


From f64064e4644d396698fb743505b7e7e2af16bb4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:54 +0000
Subject: [PATCH 42/42] fix: Event (before C++11): wait and wakeup retry when
 interrupted and report failure

---
 include/cybozu/event.hpp | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/include/cybozu/event.hpp b/include/cybozu/event.hpp
index c871b96..a718288 100644
--- a/include/cybozu/event.hpp
+++ b/include/cybozu/event.hpp
@@ -106,14 +106,28 @@ public:
 	void wakeup()
 	{
 		char c = 'a';
-		ssize_t size = ::write(pipefd_[1], &c, 1);
-		cybozu::disable_warning_unused_variable(size);
+		ssize_t size;
+		do {
+			size = ::write(pipefd_[1], &c, 1);
+		} while (size < 0 && errno == EINTR);
+		if (size != 1) {
+			cybozu::EventException e;
+			e << "wakeup";
+			throw e;
+		}
 	}
 	void wait()
 	{
 		char c;
-		ssize_t size = ::read(pipefd_[0], &c, 1);
-		cybozu::disable_warning_unused_variable(size);
+		ssize_t size;
+		do {
+			size = ::read(pipefd_[0], &c, 1);
+		} while (size < 0 && errno == EINTR);
+		if (size != 1) {
+			cybozu::EventException e;
+			e << "wait";
+			throw e;
+		}
 	}
 };
 #endif
-- 
2.43.0

