From dc5e2039aefcd8496a0f0adcd2fe6f97726d23ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:40:40 +0000
Subject: [PATCH 01/21] fix: drop late repairs that encode already dropped
 sources

A repair reordered by the network moved the decoder's horizon backwards, so
that sources already given to the user were decoded or accepted again.
---
 netcode/detail/decoder.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index 1fd59fb..d01af3e 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -56,10 +56,10 @@ decoder::operator()(decoder_repair&& incoming_r)
 {
   assert(not incoming_r.source_ids().empty());
 
-  const auto last_id_in_source_ids = *(incoming_r.source_ids().end() - 1);
-  if (m_last_id and last_id_in_source_ids < *m_last_id)
+  if (m_last_id and *incoming_r.source_ids().begin() < *m_last_id)
   {
-    // It's a repair that provide outdated informations, drop it.
+    // It's a repair that provide outdated informations: it encodes at least one source that has
+    // already been dropped (and which thus can't be removed from this repair). Drop it.
     return;
   }
 
-- 
2.43.0


From 0b0a4c807819b99b4124840454706848e8fc951a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:42:16 +0000
Subject: [PATCH 02/21] fix: remove a source decoded from an incoming repair
 from the other repairs

The missing source was forgotten before the repairs that encode it were
updated: sources later decoded from these repairs were corrupted. Enough
repairs may also be available now to decode the remaining missing sources.
---
 netcode/detail/decoder.cc | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index d01af3e..599f7c4 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -136,16 +136,15 @@ decoder::operator()(decoder_repair&& incoming_r)
     // Create missing source.
     auto src = create_source_from_repair(r);
 
-    // Source is no longer missing.
-    m_missing_sources.erase(src.id());
+    // This repair no longer references the missing source. Other repairs might still encode this
+    // source: add_source_recursive() needs to know them in order to remove it from them.
+    m_missing_sources[src.id()].erase(r_cit);
 
     // This repair is no longer needed.
     m_repairs.erase(r_cit);
 
     // This newly decode source might trigger the decoding of several other sources.
     add_source_recursive(std::move(src));
-
-    return;
   }
 
   attempt_full_decoding();
-- 
2.43.0


From 98579b325a6768f4cb8ca4b45113a4745a7e4ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:00 +0000
Subject: [PATCH 03/21] fix: decode a source from a repair even if it's encoded
 by other repairs

A repair left with a single source was not used when this source was also
encoded by another repair, and was left without any source (and still counted
to build the matrix of coefficients) when this source was finally received.
---
 netcode/detail/decoder.cc | 65 ++++++++++++++++++++-------------------
 1 file changed, 34 insertions(+), 31 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index 599f7c4..8c9640f 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -268,7 +268,15 @@ decoder::add_source_recursive(decoder_source&& src)
     for (auto r_cit : search->second)
     {
       auto& r = r_cit->second;
-      remove_source_from_repair(src, r);
+      if (r.source_ids().size() == 1)
+      {
+        // This repair only encodes src, it's no longer useful.
+        m_repairs.erase(r_cit);
+      }
+      else
+      {
+        remove_source_from_repair(src, r);
+      }
     }
 
     // It's no longer a missing source.
@@ -277,48 +285,43 @@ decoder::add_source_recursive(decoder_source&& src)
 
   // Now, look for repairs that encodes only 1 source. When one is found, the corresponding
   // encoded source is decoded and the repair is erased.
-  for ( auto miss_cit = m_missing_sources.begin(), miss_end = m_missing_sources.end()
-      ; miss_cit != miss_end;)
+  for (auto miss_cit = m_missing_sources.begin(); miss_cit != m_missing_sources.end();)
   {
-    const auto& repairs_cits = miss_cit->second;
-    // Does this missing source is referenced by only one repair?
-    if (repairs_cits.size() == 1)
+    auto& repairs_cits = miss_cit->second;
+    // Is there a repair that encodes only this missing source?
+    const auto search_r = std::find_if( repairs_cits.begin(), repairs_cits.end()
+                                      , [](const repairs_set_type::iterator& cit)
+                                        {
+                                          return cit->second.source_ids().size() == 1;
+                                        });
+    if (search_r != repairs_cits.end())
     {
       // Some shortcuts.
-      const auto r_cit = *repairs_cits.begin();
+      const auto r_cit = *search_r;
       const auto& r = r_cit->second;
 
-      // Does this repair encode only 1 source?
-      if (r.source_ids().size() == 1)
-      {
-        // Check that this source wasn't decoded in the past.
-        assert(m_last_id ? *r.source_ids().begin() >= *m_last_id : true);
-        // Check that this source doesn't belong to the set of current sources.
-        assert(not m_sources.count(*r.source_ids().begin()));
+      // Check that this source wasn't decoded in the past.
+      assert(m_last_id ? *r.source_ids().begin() >= *m_last_id : true);
+      // Check that this source doesn't belong to the set of current sources.
+      assert(not m_sources.count(*r.source_ids().begin()));
 
-        // This missing source is referenced by only 1 repair and this repair references only 1
-        // missing source. Thus, we can reconstruct the missing source.
-        auto decoded_src = create_source_from_repair(r);
+      // This repair references only 1 missing source. Thus, we can reconstruct the missing source.
+      auto decoded_src = create_source_from_repair(r);
 
-        // We can erase this repair.
-        m_repairs.erase(r_cit);
+      // We can erase this repair.
+      repairs_cits.erase(search_r);
+      m_repairs.erase(r_cit);
 
-        // It's no longer a missing source.
-        miss_cit = m_missing_sources.erase(miss_cit);
+      // This newly decoded source might trigger the decoding of other sources. It will also be
+      // removed from all other repairs that encode it.
+      add_source_recursive(std::move(decoded_src));
 
-        // This newly decoded source might trigger the decoding of other sources.
-        add_source_recursive(std::move(decoded_src));
-      }
-      else
-      {
-        // This repair encodes too much sources, other sources are needed to reconstruct *miss_cit.
-        // Try next missing source.
-        ++miss_cit;
-      }
+      // Other missing sources may have been erased.
+      miss_cit = m_missing_sources.begin();
     }
     else
     {
-      // This missing source is referenced by multiple repairs. Try next missing source.
+      // Other sources are needed to reconstruct *miss_cit. Try next missing source.
       ++miss_cit;
     }
   }
-- 
2.43.0


From ad4dce134cdd0e85af1619928afd1923530d2890 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:44:32 +0000
Subject: [PATCH 04/21] fix: in-order decoder loses a source that triggers the
 decoding of older ones

The source was neither given to the user nor remembered when the sources
decoded thanks to it made it the next one to be given in order.
---
 netcode/detail/decoder.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index 8c9640f..fcc0b98 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -331,10 +331,12 @@ decoder::add_source_recursive(decoder_source&& src)
   const auto insertion = m_sources.emplace(src_id, std::move(src));
   assert(insertion.second && "source already added");
 
-  if (m_in_order and insertion.first->second.id() > m_first_missing_source_in_order)
+  if (m_in_order and insertion.first->second.id() >= m_first_missing_source_in_order)
   {
-    // We can't send the current source as there are some older sources which have not been sent.
+    // The current source has not been sent, as there were some older sources which had not been
+    // sent. They might have been decoded by the recursive calls: send what's now possible to send.
     m_ordered_sources.emplace(insertion.first->second.id(), &insertion.first->second);
+    flush_ordered_sources();
   }
 }
 
-- 
2.43.0


From 77901aac09734a7ae29e94bd865eed7ef4faff8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:46:07 +0000
Subject: [PATCH 05/21] fix: blame a dependent repair when the matrix of
 coefficients can't be inverted

The last repair was always discarded, even when it was independent of the other
ones: the redundant repairs were kept and the decoder couldn't progress.
---
 netcode/detail/invert_matrix.cc | 30 +++++++++++++++++++++++-------
 netcode/detail/invert_matrix.hh |  4 ++--
 2 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/netcode/detail/invert_matrix.cc b/netcode/detail/invert_matrix.cc
index fc98d0f..2ae5f38 100644
--- a/netcode/detail/invert_matrix.cc
+++ b/netcode/detail/invert_matrix.cc
@@ -24,23 +24,25 @@ noexcept
   }
 
   // Convert into upper triangular
+  auto rank = 0ul;
   for (auto i = 0ul; i < cols; ++i)
   {
-    const auto row_start = i * cols;
+    // As long as the matrix looks invertible, rank == i.
+    const auto row_start = rank * cols;
 
     // Swap rows if we have a zero i,i element.
     // If we can't swap, then the matrix was not invertible.
     if (mat[row_start + i] == 0)
     {
       auto j = 0ul;
-      for (j = i + 1; j < rows and mat[(cols * j) + i] == 0; ++j)
+      for (j = rank + 1; j < rows and mat[(cols * j) + i] == 0; ++j)
       {
       }
 
-      if (j == rows)
+      if (j >= rows)
       {
-        // Failure, matrix is not invertible.
-        return {j - 1};
+        // Failure, matrix is not invertible. Continue to find out which row is to blame.
+        continue;
       }
 
       const auto row_start2 = j * cols;
@@ -68,9 +70,9 @@ noexcept
       }
     }
 
-    // Now for each j > i, add A_ji * Ai to Aj
+    // Now for each j > rank, add A_ji * Ai to Aj
     auto k = row_start + i;
-    for (auto j = i + 1; j != cols; ++j)
+    for (auto j = rank + 1; j < rows; ++j)
     {
       k += cols;
       if (mat[k] != 0)
@@ -96,6 +98,20 @@ noexcept
         }
       }
     }
+
+    ++rank;
+  }
+
+  if (rank != rows)
+  {
+    // All rows from rank are now null. The corresponding row in inv gives how the original rows are
+    // to be combined to get this null row, thus any of them is a combination of the other ones.
+    auto faulty = cols - 1;
+    while (inv[rank * cols + faulty] == 0)
+    {
+      --faulty;
+    }
+    return {faulty};
   }
 
   // Now the matrix is upper triangular. Start at the top and multiply down.
diff --git a/netcode/detail/invert_matrix.hh b/netcode/detail/invert_matrix.hh
index 5046532..751f61c 100644
--- a/netcode/detail/invert_matrix.hh
+++ b/netcode/detail/invert_matrix.hh
@@ -14,8 +14,8 @@ namespace ntc { namespace detail {
 /// @attention @p mat will be overwritten
 /// @note This is the algorithm provided by jerasure ( http://jerasure.org )
 /// @related square_matrix
-/// @return A initialized optional value if inversion failed. In this case, the value is the column
-/// which made the inversion fail.
+/// @return A initialized optional value if inversion failed. In this case, the value is a column
+/// which is a linear combination of the other ones.
 boost::optional<std::size_t>
 invert(galois_field& gf, square_matrix& mat, square_matrix& inv)
 noexcept;
-- 
2.43.0


From 4ec4336170bcafeaa7656dcdf1364dfc10ab9cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:04 +0000
Subject: [PATCH 06/21] fix: transmit the encoded size of a repair on 32 bits

With a Galois field of size 32, the size of the sources multiplied by a
coefficient doesn't fit in 16 bits: decoded sizes were wrong as soon as the
identifiers were large enough.
---
 netcode/detail/decoder.cc      | 11 +++++------
 netcode/detail/encoder.cc      |  4 +---
 netcode/detail/galois_field.hh | 13 +++++++------
 netcode/detail/packetizer.hh   |  4 ++--
 netcode/detail/repair.hh       | 16 ++++++++--------
 5 files changed, 23 insertions(+), 25 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index fcc0b98..76fa6e6 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -163,7 +163,7 @@ noexcept
   const auto inv = m_gf.invert(m_gf.coefficient(r.id(), src_id));
 
   // Reconstruct size.
-  const auto src_sz = m_gf.multiply_size(r.encoded_size(), inv);
+  const auto src_sz = static_cast<std::uint16_t>(m_gf.multiply_size(r.encoded_size(), inv));
 
   // The source that will be reconstructed.
   auto src = decoder_source{src_id, packet(src_sz + packet::alignment), src_sz};
@@ -404,8 +404,7 @@ noexcept
   const auto coeff = m_gf.coefficient(r.id(), src.id());
 
   // Remove source size.
-  r.encoded_size()
-    = static_cast<std::uint16_t>(m_gf.multiply_size(src.symbol_size(), coeff) ^ r.encoded_size());
+  r.encoded_size() = m_gf.multiply_size(src.symbol_size(), coeff) ^ r.encoded_size();
 
   // Remove symbol.
   m_gf.multiply_add(src.symbol(), r.symbol(), src.symbol_size(), coeff);
@@ -487,17 +486,17 @@ decoder::attempt_full_decoding()
     // First, decode the size of the source.
     const auto src_sz = [&,this]
     {
-      auto res = std::uint16_t{0};
+      auto res = std::uint32_t{0};
       for (auto repair_row = 0ul; repair_row < m_inv.dimension(); ++repair_row)
       {
         const auto coeff = m_inv(repair_row, src_col);
         if (coeff != 0)
         {
           const auto tmp = m_gf.multiply_size(m_index[repair_row]->encoded_size(), coeff);
-          res = static_cast<std::uint16_t>(tmp) ^ res;
+          res = tmp ^ res;
         }
       }
-      return res;
+      return static_cast<std::uint16_t>(res);
     }();
 
     // Now, decode symbol.
diff --git a/netcode/detail/encoder.cc b/netcode/detail/encoder.cc
index be5f549..b3c3907 100644
--- a/netcode/detail/encoder.cc
+++ b/netcode/detail/encoder.cc
@@ -57,9 +57,7 @@ encoder::operator()(encoder_repair& repair, source_list& sources)
     m_gf.multiply_add(cit->symbol().data(), repair.symbol().data(), cit->size(), c);
 
     // Finally, add the user size.
-    // Cast is necessary to inhibit conversion warning as xor implicitly convert to a signed value.
-    repair.encoded_size()
-      = static_cast<std::uint16_t>(m_gf.multiply_size(cit->size(), c) ^ repair.encoded_size());
+    repair.encoded_size() = m_gf.multiply_size(cit->size(), c) ^ repair.encoded_size();
   }
 }
 
diff --git a/netcode/detail/galois_field.hh b/netcode/detail/galois_field.hh
index 820e5e1..82ebfa7 100644
--- a/netcode/detail/galois_field.hh
+++ b/netcode/detail/galois_field.hh
@@ -93,8 +93,9 @@ public:
 
   /// @brief Multiply a size with a coefficient.
   /// @attention Make sure that the coefficient is generated with galois_field::coefficient.
-  std::uint16_t
-  multiply_size(std::uint16_t size, std::uint32_t coeff)
+  /// @note The result doesn't fit in 16 bits when the field size is 32.
+  std::uint32_t
+  multiply_size(std::uint32_t size, std::uint32_t coeff)
   noexcept
   {
     assert(  (((m_w == 4 or m_w == 8 or m_w == 16 ) and coeff < (1u << m_w)) or (m_w == 32))
@@ -107,15 +108,15 @@ public:
 
     if (m_w <= 8) // 4 or 8
     {
-      __attribute__((aligned(16))) std::uint16_t res;
-      __attribute__((aligned(16))) std::uint16_t size_ = size;
+      __attribute__((aligned(16))) std::uint32_t res;
+      __attribute__((aligned(16))) std::uint32_t size_ = size;
       multiply( reinterpret_cast<char*>(&size_), reinterpret_cast<char*>(&res)
-              , sizeof(std::uint16_t), coeff);
+              , sizeof(std::uint32_t), coeff);
       return res;
     }
     else // w = 16 or 32
     {
-      return static_cast<std::uint16_t>(m_gf.multiply.w32(&m_gf, size, coeff));
+      return m_gf.multiply.w32(&m_gf, size, coeff);
     }
   }
 
diff --git a/netcode/detail/packetizer.hh b/netcode/detail/packetizer.hh
index 98e7ad6..abb4498 100644
--- a/netcode/detail/packetizer.hh
+++ b/netcode/detail/packetizer.hh
@@ -109,7 +109,7 @@ public:
     write(r.source_ids());
 
     // Write encoded size.
-    write<std::uint16_t>(r.encoded_size());
+    write<std::uint32_t>(r.encoded_size());
 
     // Write size of the repair symbol.
     write<std::uint16_t>(r.symbol().size());
@@ -156,7 +156,7 @@ public:
     auto ids = read_ids(data, max_len);
 
     // Read encoded size.
-    const auto encoded_sz = read<std::uint16_t>(data, max_len);
+    const auto encoded_sz = read<std::uint32_t>(data, max_len);
 
     return std::make_pair( decoder_repair{id, encoded_sz, std::move(ids), std::move(p), symbol_size}
                          , reinterpret_cast<std::size_t>(data) - begin); // Number of read bytes.
diff --git a/netcode/detail/repair.hh b/netcode/detail/repair.hh
index 09bfec2..a470fdd 100644
--- a/netcode/detail/repair.hh
+++ b/netcode/detail/repair.hh
@@ -36,7 +36,7 @@ public:
 
   /// @brief Construct with an existing list of source identifiers and a symbol.
   /// @note For tests
-  encoder_repair( std::uint32_t id, std::uint16_t encoded_size, source_id_list&& ids
+  encoder_repair( std::uint32_t id, std::uint32_t encoded_size, source_id_list&& ids
                 , detail::zero_byte_buffer&& buffer)
     : m_id{id}
     , m_sources_ids{std::move(ids)}
@@ -104,7 +104,7 @@ public:
   }
 
   /// @brief Get the encoded sizes of all sources this repair contains.
-  std::uint16_t
+  std::uint32_t
   encoded_size()
   const noexcept
   {
@@ -112,7 +112,7 @@ public:
   }
 
   /// @brief Get the encoded sizes of all sources this repair contains.
-  std::uint16_t&
+  std::uint32_t&
   encoded_size()
   noexcept
   {
@@ -128,7 +128,7 @@ private:
   source_id_list m_sources_ids;
 
   /// @brief The encoded sizes of all sources this repair contains.
-  std::uint16_t m_encoded_size;
+  std::uint32_t m_encoded_size;
 
   /// @brief This repair's symbol.
   detail::zero_byte_buffer m_buffer;
@@ -158,7 +158,7 @@ public:
   decoder_repair& operator=(decoder_repair&&) = default;
 
   /// @brief Construct with an existing list of source identifiers and a symbol.
-  decoder_repair( std::uint32_t id, std::uint16_t encoded_size, source_id_list&& ids
+  decoder_repair( std::uint32_t id, std::uint32_t encoded_size, source_id_list&& ids
                 , packet&& p, std::size_t symbol_size)
     : m_id{id}
     , m_sources_ids{std::move(ids)}
@@ -216,7 +216,7 @@ public:
   }
 
   /// @brief Get the encoded sizes of all sources this repair contains.
-  std::uint16_t
+  std::uint32_t
   encoded_size()
   const noexcept
   {
@@ -224,7 +224,7 @@ public:
   }
 
   /// @brief Get the encoded sizes of all sources this repair contains.
-  std::uint16_t&
+  std::uint32_t&
   encoded_size()
   noexcept
   {
@@ -248,7 +248,7 @@ private:
   source_id_list m_sources_ids;
 
   /// @brief The encoded sizes of all sources this repair contains.
-  std::uint16_t m_encoded_size;
+  std::uint32_t m_encoded_size;
 
   /// @brief This repair's symbol.
   packet m_symbol_buffer;
-- 
2.43.0


From 4b5ee468031d565b103220029e92cb17f98920ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:27 +0000
Subject: [PATCH 07/21] fix: enforce the maximal window size when it's lowered

The window was never trimmed again, and grew without limit, when it was set to
a size smaller than the current number of sources.
---
 netcode/encoder.hh | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/netcode/encoder.hh b/netcode/encoder.hh
index 7c553fe..518b05c 100644
--- a/netcode/encoder.hh
+++ b/netcode/encoder.hh
@@ -255,7 +255,8 @@ private:
   void
   commit_impl(data&& d)
   {
-    if (m_sources.size() == m_window_size)
+    // The limit may have been lowered since the last data.
+    while (m_sources.size() >= m_window_size)
     {
       m_sources.pop_front();
     }
-- 
2.43.0


From 77b0c1653adcedf655f09218f662bc45c1cda2c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:48:45 +0000
Subject: [PATCH 08/21] fix: don't write the symbol of a repair twice

The second copy was never read: repair packets were twice as large as needed,
and the number of read bytes didn't match the number of written ones.
---
 netcode/detail/packetizer.hh | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/netcode/detail/packetizer.hh b/netcode/detail/packetizer.hh
index abb4498..62796af 100644
--- a/netcode/detail/packetizer.hh
+++ b/netcode/detail/packetizer.hh
@@ -111,12 +111,6 @@ public:
     // Write encoded size.
     write<std::uint32_t>(r.encoded_size());
 
-    // Write size of the repair symbol.
-    write<std::uint16_t>(r.symbol().size());
-
-    // Write repair symbol.
-    write(r.symbol().data(), r.symbol().size());
-
     // End of data.
     mark_end();
   }
-- 
2.43.0


From f41a55a37a7bb68e5c1de5f54b38611955488568 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:03 +0000
Subject: [PATCH 09/21] fix: forcing a repair when all sources have been
 acknowledged

The list of sources was accessed even if it was empty.
---
 netcode/encoder.hh | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/netcode/encoder.hh b/netcode/encoder.hh
index 518b05c..64dbd3b 100644
--- a/netcode/encoder.hh
+++ b/netcode/encoder.hh
@@ -159,9 +159,14 @@ public:
   }
 
   /// @brief Force the generation of a repair
+  /// @note Nothing is sent if there are no sources to encode, that is if window() == 0
   void
   generate_repair()
   {
+    if (m_sources.size() == 0)
+    {
+      return;
+    }
     m_repair.reset();
     mk_repair();
     ++m_nb_sent_packets;
-- 
2.43.0


From 5da135666e128d200d5979dd1db97d48c2548a1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:50:23 +0000
Subject: [PATCH 10/21] fix: lists of source identifiers with differences that
 don't fit in 16 bits

These differences were truncated: repairs and acks referenced wrong sources.
---
 netcode/detail/packetizer.hh | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/netcode/detail/packetizer.hh b/netcode/detail/packetizer.hh
index 62796af..3278727 100644
--- a/netcode/detail/packetizer.hh
+++ b/netcode/detail/packetizer.hh
@@ -254,6 +254,8 @@ private:
   /// @brief Serialize a list of source identifiers.
   ///
   /// The list is compressed using a RLE encoding on adjacent differences.
+  /// A difference (or a run of) which doesn't fit in 16 bits is preceded by a pair with a null run
+  /// length which holds its 16 most significant bits.
   void
   write(const source_id_list& ids)
   {
@@ -285,7 +287,11 @@ private:
         ++run_length;
         ++cit;
       }
-      m_rle_buffer.emplace_back(run_length, *cit);
+      if (*cit > std::numeric_limits<std::uint16_t>::max())
+      {
+        m_rle_buffer.emplace_back(std::uint8_t{0}, static_cast<std::uint16_t>(*cit >> 16));
+      }
+      m_rle_buffer.emplace_back(run_length, static_cast<std::uint16_t>(*cit));
       ++cit;
     }
 
@@ -327,15 +333,23 @@ private:
 
     // Reverse running length encoding on the fly.
     const auto nb_pairs = nb_elements - 1u; // Remove the first identifier.
+    std::uint32_t high = 0; // The most significant bits of the next differences.
     for (auto i = 0ul; i < nb_pairs; ++i)
     {
       const auto run_length = read<std::uint8_t>(data, max_len);
       const auto value = read<std::uint16_t>(data, max_len);
 
+      if (run_length == 0)
+      {
+        high = static_cast<std::uint32_t>(value) << 16;
+        continue;
+      }
+
       for (auto j = 0u; j < run_length; ++j)
       {
-        m_difference_buffer.push_back(value);
+        m_difference_buffer.push_back(high + value);
       }
+      high = 0;
     }
 
     // Revert to list of source identifiers.
-- 
2.43.0


From 492553accb4382bdfa16314bba98bfca2d811956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:51:28 +0000
Subject: [PATCH 11/21] fix: count more than 65535 packets sent since the last
 ack

The counter used to compute the loss rate wrapped around.
---
 netcode/encoder.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/netcode/encoder.hh b/netcode/encoder.hh
index 64dbd3b..23414a0 100644
--- a/netcode/encoder.hh
+++ b/netcode/encoder.hh
@@ -308,8 +308,8 @@ private:
       {
         if (m_nb_sent_packets > 0)
         {
-          const auto loss_rate
-            = (m_nb_sent_packets - res.first.nb_packets()) / static_cast<double>(m_nb_sent_packets);
+          const auto nb_sent_packets = static_cast<double>(m_nb_sent_packets);
+          const auto loss_rate = (nb_sent_packets - res.first.nb_packets()) / nb_sent_packets;
           m_rate = rate_for_loss(loss_rate);
         }
         else
@@ -397,7 +397,7 @@ private:
   std::size_t m_nb_sent_sources;
 
   /// @brief The number of sent packets since last ack
-  std::uint16_t m_nb_sent_packets;
+  std::size_t m_nb_sent_packets;
 };
 
 /*------------------------------------------------------------------------------------------------*/
-- 
2.43.0


From 81b7ded3bf04b67f1fd773051326b06a3073ce91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:29 +0000
Subject: [PATCH 12/21] fix: include cstdint where recorded packets are
 serialized

A decoder with NTC_DUMP_PACKETS could not be compiled if nothing else had included it before.
---
 netcode/detail/serialize_packet.hh | 1 +
 1 file changed, 1 insertion(+)

diff --git a/netcode/detail/serialize_packet.hh b/netcode/detail/serialize_packet.hh
index 2c89092..0b79cb8 100644
--- a/netcode/detail/serialize_packet.hh
+++ b/netcode/detail/serialize_packet.hh
@@ -1,6 +1,7 @@
 #pragma once
 
 #include <algorithm> // copy
+#include <cstdint>
 #include <iostream>
 
 #include <boost/endian/conversion.hpp>
-- 
2.43.0


From e10a23db78db88c319c6e1d25b5b6830c0836960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:29 +0000
Subject: [PATCH 13/21] fix: read back recorded packets as they were written

How far copy_n advances the stream depends on its output iterator: a byte of each record was skipped.
---
 netcode/detail/serialize_packet.hh | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/netcode/detail/serialize_packet.hh b/netcode/detail/serialize_packet.hh
index 0b79cb8..c29ecd5 100644
--- a/netcode/detail/serialize_packet.hh
+++ b/netcode/detail/serialize_packet.hh
@@ -30,17 +30,14 @@ struct serialize_packet
   {
     auto p = packet{};
 
-    std::istreambuf_iterator<char> isb(is);
     auto sz = std::uint16_t{};
-    std::copy_n(isb, 2, reinterpret_cast<char*>(&sz));
-    ++isb;
+    is.read(reinterpret_cast<char*>(&sz), sizeof(sz));
 
     const auto sz_native = boost::endian::big_to_native(sz);
 
     p.m_buffer.resize(sz_native);
-    std::copy_n(isb, sz_native, p.m_buffer.begin());
+    is.read(p.m_buffer.data(), sz_native);
 
-    ++isb;
     return p;
   }
 };
-- 
2.43.0


From 4add7ff418f6e88208b0eae10fdee6d6d4ddb34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:29 +0000
Subject: [PATCH 14/21] fix: replay the last recorded packet

---
 tools/replay.cc | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/tools/replay.cc b/tools/replay.cc
index 694fc2e..c8c9610 100644
--- a/tools/replay.cc
+++ b/tools/replay.cc
@@ -59,15 +59,10 @@ main(int argc, const char** argv)
     ntc::decoder<packet_handler, data_handler> decoder{ 8, ntc::in_order::yes, packet_handler{}
                                                       , data_handler{}};
 
-    while (true)
+    while (dump_file.peek() != std::char_traits<char>::eof())
     {
       const auto packet = ntc::detail::serialize_packet::read(dump_file);
 
-      if (dump_file.peek() == std::char_traits<char>::eof())
-      {
-        break;
-      }
-
       switch (ntc::detail::get_packet_type(packet))
       {
         case ntc::detail::packet_type::ack:
-- 
2.43.0


From 7b59e9c4907b46e3aefea0b4b81af7415882c5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:39 +0000
Subject: [PATCH 15/21] fix: the lossy proxy truncated datagrams larger than
 4096 bytes

---
 tools/lossy_proxy.cc | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/tools/lossy_proxy.cc b/tools/lossy_proxy.cc
index 789a897..0173ae1 100644
--- a/tools/lossy_proxy.cc
+++ b/tools/lossy_proxy.cc
@@ -27,13 +27,16 @@ static unsigned int display_timer = 5;
 using boost::asio::ip::address_v4;
 using boost::asio::ip::udp;
 
+// Large enough for any UDP datagram
+using buffer_type = std::array<char, 65536>;
+
 /*------------------------------------------------------------------------------------------------*/
 
 template <typename Loss>
 void
 listen( udp::socket& in_socket, udp::endpoint& in_endpoint
       , udp::socket& out_socket, udp::endpoint& out_endpoint
-      , std::array<char, 4096>& buffer, Loss&& loss, std::size_t& losses, std::size_t& total)
+      , buffer_type& buffer, Loss&& loss, std::size_t& losses, std::size_t& total)
 {
   in_socket.async_receive_from( boost::asio::buffer(buffer), in_endpoint
                               , [&](const boost::system::error_code& err, std::size_t sz)
@@ -111,8 +114,8 @@ proxy( unsigned short a_port, const std::string& b_ip, const std::string& b_port
 
   boost::asio::steady_timer timer{io, std::chrono::seconds(display_timer)};
 
-  std::array<char, 4096> a_to_b;
-  std::array<char, 4096> b_to_a;
+  buffer_type a_to_b;
+  buffer_type b_to_a;
 
 
   listen( a_socket, a_endpoint, b_socket, b_endpoint, a_to_b, std::forward<Loss>(loss)
-- 
2.43.0


From 29fb4e5f314c1dd646c9db0ecdc2f7b07a8aac04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:39 +0000
Subject: [PATCH 16/21] fix: the forwarder of sources stopped when receiving a
 source larger than 4096 bytes

---
 tools/source_forwarder.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tools/source_forwarder.cc b/tools/source_forwarder.cc
index 045eee9..b4dfdcd 100644
--- a/tools/source_forwarder.cc
+++ b/tools/source_forwarder.cc
@@ -71,7 +71,7 @@ main(int argc, const char** argv)
 
     while (true)
     {
-      ntc::packet buffer(4096);
+      ntc::packet buffer(65536); // large enough for any UDP datagram
 
       const auto sz = in_socket.receive_from(boost::asio::buffer(buffer), in_endpoint);
       if (sz > 0)
-- 
2.43.0


From 34d90dd26c05ad1c4069d5658b66135c12b011f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:36:39 +0000
Subject: [PATCH 17/21] fix: the forwarder of sources sent garbage when
 receiving a truncated source

---
 tools/source_forwarder.cc | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/tools/source_forwarder.cc b/tools/source_forwarder.cc
index b4dfdcd..50a7bd5 100644
--- a/tools/source_forwarder.cc
+++ b/tools/source_forwarder.cc
@@ -78,8 +78,16 @@ main(int argc, const char** argv)
       {
         if (buffer[0] == 2) // source
         {
-          const auto src = packetizer.read_source(std::move(buffer)).first;
-          out_socket.send_to(boost::asio::buffer(src.symbol(), src.symbol_size()), out_endpoint);
+          buffer.resize(sz);
+          try
+          {
+            const auto src = packetizer.read_source(std::move(buffer)).first;
+            out_socket.send_to(boost::asio::buffer(src.symbol(), src.symbol_size()), out_endpoint);
+          }
+          catch (const ntc::overflow_error&)
+          {
+            // Truncated source, nothing to forward.
+          }
         }
       }
     }
-- 
2.43.0


From 61c84df2d09dd89b4ff52c9aa92deb00f8f927a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:39 +0000
Subject: [PATCH 18/21] fix: return a null pointer when there's not enough
 memory to create an object

The C functions which create objects are noexcept: the program was terminated as soon as the
constructor of an encoder, a decoder, a data or a packet couldn't allocate memory.
---
 netcode/c/data.cc               |  6 ++----
 netcode/c/decoder.cc            | 12 +++++-------
 netcode/c/detail/check_error.hh | 21 +++++++++++++++++++++
 netcode/c/encoder.cc            |  6 ++----
 netcode/c/packet.cc             |  6 ++----
 5 files changed, 32 insertions(+), 19 deletions(-)

diff --git a/netcode/c/data.cc b/netcode/c/data.cc
index b10677f..fdc837b 100644
--- a/netcode/c/data.cc
+++ b/netcode/c/data.cc
@@ -1,5 +1,3 @@
-#include <new> // nothrow
-
 #include "netcode/c/detail/check_error.hh"
 #include "netcode/c/data.h"
 
@@ -9,7 +7,7 @@ ntc_data_t*
 ntc_new_data(uint16_t size)
 noexcept
 {
-  return new (std::nothrow) ntc_data_t(size);
+  return ntc::detail::create<ntc_data_t>(size);
 }
 
 /*------------------------------------------------------------------------------------------------*/
@@ -18,7 +16,7 @@ ntc_data_t*
 ntc_new_data_from(const char* src, uint16_t size)
 noexcept
 {
-  return new (std::nothrow) ntc_data_t(src, src + size);
+  return ntc::detail::create<ntc_data_t>(src, src + size);
 }
 
 /*------------------------------------------------------------------------------------------------*/
diff --git a/netcode/c/decoder.cc b/netcode/c/decoder.cc
index e07178a..ab01bc6 100644
--- a/netcode/c/decoder.cc
+++ b/netcode/c/decoder.cc
@@ -1,5 +1,3 @@
-#include <new> // nothrow
-
 #include "netcode/c/detail/check_error.hh"
 #include "netcode/c/decoder.h"
 #include "netcode/errors.hh"
@@ -11,11 +9,11 @@ ntc_new_decoder( uint8_t galois_field_size, ntc_ordering_type order
                , ntc_packet_handler packet_handler, ntc_data_handler data_handler)
 noexcept
 {
-  return new (std::nothrow) ntc_decoder_t{ galois_field_size
-                                         , order == ntc_in_order_yes ? ntc::in_order::yes
-                                                                     : ntc::in_order::no
-                                         , ntc::detail::c_packet_handler{packet_handler}
-                                         , ntc::detail::c_data_handler{data_handler}};
+  return ntc::detail::create<ntc_decoder_t>( galois_field_size
+                                           , order == ntc_in_order_yes ? ntc::in_order::yes
+                                                                       : ntc::in_order::no
+                                           , ntc::detail::c_packet_handler{packet_handler}
+                                           , ntc::detail::c_data_handler{data_handler});
 }
 
 /*------------------------------------------------------------------------------------------------*/
diff --git a/netcode/c/detail/check_error.hh b/netcode/c/detail/check_error.hh
index defe2ce..597aed0 100644
--- a/netcode/c/detail/check_error.hh
+++ b/netcode/c/detail/check_error.hh
@@ -4,6 +4,7 @@
 #include <cstring>
 #include <new> // nothrow
 #include <stdexcept>
+#include <utility> // forward
 
 #include "netcode/c/error.h"
 #include "netcode/errors.hh"
@@ -67,4 +68,24 @@ noexcept
 
 /*------------------------------------------------------------------------------------------------*/
 
+/// @internal
+/// @brief Create an object which may allocate memory when constructed
+/// @return A null pointer if the allocation or the construction failed
+template <typename T, typename... Args>
+T*
+create(Args&&... args)
+noexcept
+{
+  try
+  {
+    return new T(std::forward<Args>(args)...);
+  }
+  catch (...)
+  {
+    return nullptr;
+  }
+}
+
+/*------------------------------------------------------------------------------------------------*/
+
 }} // namespace ntc::detail
diff --git a/netcode/c/encoder.cc b/netcode/c/encoder.cc
index 74c718f..3757601 100644
--- a/netcode/c/encoder.cc
+++ b/netcode/c/encoder.cc
@@ -1,5 +1,3 @@
-#include <new> // nothrow
-
 #include "netcode/c/detail/check_error.hh"
 #include "netcode/c/encoder.h"
 
@@ -9,8 +7,8 @@ ntc_encoder_t*
 ntc_new_encoder(uint8_t galois_field_size, ntc_packet_handler handler)
 noexcept
 {
-  return new (std::nothrow) ntc_encoder_t{ galois_field_size
-                                         , ntc::detail::c_packet_handler{handler}};
+  return ntc::detail::create<ntc_encoder_t>( galois_field_size
+                                           , ntc::detail::c_packet_handler{handler});
 }
 
 /*------------------------------------------------------------------------------------------------*/
diff --git a/netcode/c/packet.cc b/netcode/c/packet.cc
index babdcf7..08f3f39 100644
--- a/netcode/c/packet.cc
+++ b/netcode/c/packet.cc
@@ -1,5 +1,3 @@
-#include <new> // nothrow
-
 #include "netcode/c/detail/check_error.hh"
 #include "netcode/c/packet.h"
 
@@ -9,7 +7,7 @@ ntc_packet_t*
 ntc_new_packet(uint16_t size)
 noexcept
 {
-  return new (std::nothrow) ntc_packet_t(size);
+  return ntc::detail::create<ntc_packet_t>(size);
 }
 
 /*------------------------------------------------------------------------------------------------*/
@@ -18,7 +16,7 @@ ntc_packet_t*
 ntc_new_packet_from(const char* src, uint16_t size)
 noexcept
 {
-  return new (std::nothrow) ntc_packet_t(src, src + size);
+  return ntc::detail::create<ntc_packet_t>(src, src + size);
 }
 
 /*------------------------------------------------------------------------------------------------*/
-- 
2.43.0


From 673a164893f540d3f9cb83935c0ccdbcc08c882b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:39 +0000
Subject: [PATCH 19/21] fix: don't use twice the same identifier when sending a
 source or a repair fails

If the generation of a repair failed (for instance because of a lack of memory), the next source had
the same identifier as the one that has just been sent.
---
 netcode/encoder.hh | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/netcode/encoder.hh b/netcode/encoder.hh
index 23414a0..227076f 100644
--- a/netcode/encoder.hh
+++ b/netcode/encoder.hh
@@ -269,6 +269,9 @@ private:
     // Create a new source in-place at the end of the list of sources.
     const auto& insertion = m_sources.emplace(m_current_source_id, std::move(d));
 
+    // From now on, this identifier is used, even if the following fails.
+    ++m_current_source_id;
+
     if (m_code_type == systematic::yes)
     {
       ++m_nb_sent_sources;
@@ -282,12 +285,10 @@ private:
     }
 
     /// @todo Should we generate a repair if window_size() == 1?
-    if ((m_current_source_id + 1) % m_rate == 0)
+    if (m_current_source_id % m_rate == 0)
     {
       generate_repair();
     }
-
-    ++m_current_source_id;
   }
 
   /// @brief Notify the encoder that some packet has been received (should be an ack)
-- 
2.43.0


From fd5b840113a317edfef1ecf8d6121ab8ec890e04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:10:58 +0000
Subject: [PATCH 20/21] fix: don't terminate when a decoder can't allocate
 memory

create_source_from_repair() allocates the source, and drop_outdated() calls the user's handler and
may send an ack.
---
 netcode/detail/decoder.cc | 2 --
 netcode/detail/decoder.hh | 6 ++----
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/netcode/detail/decoder.cc b/netcode/detail/decoder.cc
index 76fa6e6..ad3e223 100644
--- a/netcode/detail/decoder.cc
+++ b/netcode/detail/decoder.cc
@@ -154,7 +154,6 @@ decoder::operator()(decoder_repair&& incoming_r)
 
 decoder_source
 decoder::create_source_from_repair(const decoder_repair& r)
-noexcept
 {
   assert(r.source_ids().size() == 1 && "Repair encodes more that 1 source");
   const auto src_id = *r.source_ids().begin();
@@ -344,7 +343,6 @@ decoder::add_source_recursive(decoder_source&& src)
 
 void
 decoder::drop_outdated(std::uint32_t id)
-noexcept
 {
   // All sources with an identifier strictly less than last_id_ are now considered outdated.
   m_last_id = id;
diff --git a/netcode/detail/decoder.hh b/netcode/detail/decoder.hh
index 48987a8..9fcc1ee 100644
--- a/netcode/detail/decoder.hh
+++ b/netcode/detail/decoder.hh
@@ -69,8 +69,7 @@ public:
   /// @brief Decode a source contained in a repair.
   /// @attention @p r shall encode exactly one source.
   decoder_source
-  create_source_from_repair(const decoder_repair& r)
-  noexcept;
+  create_source_from_repair(const decoder_repair& r);
 
   /// @brief Remove a source from a repair.
   /// @attention @p r shall encode more than one source.
@@ -120,8 +119,7 @@ private:
   /// All sources with an identifier smaller than @p id will be dropped, as well as all repairs
   /// that reference thes outdated sources.
   void
-  drop_outdated(std::uint32_t id)
-  noexcept;
+  drop_outdated(std::uint32_t id);
 
   /// @brief Remove a source from a repair, but not the id from the list of source identifiers.
   /// @attention The id of the removed src must be removed from the repair's list of source
-- 
2.43.0


From 28979638ae3e4595c468c7112b67d3a579bb86ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:59:05 +0000
Subject: [PATCH 21/21] fix: the UDP tools couldn't start on a host with a
 loopback interface only

By default, a resolver ignores addresses of families for which only the loopback
interface is configured, thus '127.0.0.1' couldn't be resolved.
---
 tools/lossy_proxy.cc      | 2 +-
 tools/source_forwarder.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/tools/lossy_proxy.cc b/tools/lossy_proxy.cc
index 0173ae1..c90d977 100644
--- a/tools/lossy_proxy.cc
+++ b/tools/lossy_proxy.cc
@@ -110,7 +110,7 @@ proxy( unsigned short a_port, const std::string& b_ip, const std::string& b_port
 
   udp::socket b_socket{io, udp::endpoint(udp::v4(), 0)};
   udp::resolver resolver(io);
-  udp::endpoint b_endpoint = *resolver.resolve({udp::v4(), b_ip, b_port});
+  udp::endpoint b_endpoint = *resolver.resolve({udp::v4(), b_ip, b_port, udp::resolver::query::flags()});
 
   boost::asio::steady_timer timer{io, std::chrono::seconds(display_timer)};
 
diff --git a/tools/source_forwarder.cc b/tools/source_forwarder.cc
index 50a7bd5..bcbbeb7 100644
--- a/tools/source_forwarder.cc
+++ b/tools/source_forwarder.cc
@@ -64,7 +64,7 @@ main(int argc, const char** argv)
     udp::socket out_socket{io, udp::endpoint(udp::v4(), 0)};
     out_socket.set_option(boost::asio::socket_base::send_buffer_size{8192*64});
     udp::resolver resolver(io);
-    udp::endpoint out_endpoint = *resolver.resolve({udp::v4(), out_ip, out_port});
+    udp::endpoint out_endpoint = *resolver.resolve({udp::v4(), out_ip, out_port, udp::resolver::query::flags()});
 
     packet_handler ph; // dummy
     ntc::detail::packetizer<packet_handler> packetizer{ph};
-- 
2.43.0

