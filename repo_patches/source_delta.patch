From 44a0fc0f7f5a3135956e32310783080aedf93fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:36:33 +0000
Subject: [PATCH 01/96] fix: ring buffers: element access, checked at(), data()
 and copies

---
 include/edsp/types/fixed_ring_buffer.hpp | 40 +++++++++++++-----
 include/edsp/types/ring_buffer.hpp       | 53 +++++++++++++++++++-----
 2 files changed, 72 insertions(+), 21 deletions(-)

diff --git a/include/edsp/types/fixed_ring_buffer.hpp b/include/edsp/types/fixed_ring_buffer.hpp
index 726b8c1..901c877 100644
--- a/include/edsp/types/fixed_ring_buffer.hpp
+++ b/include/edsp/types/fixed_ring_buffer.hpp
@@ -25,6 +25,7 @@
 
 #include <edsp/meta/unused.hpp>
 #include <edsp/types/ring_span.hpp>
+#include <stdexcept>
 #include <array>
 
 namespace edsp { inline namespace types {
@@ -58,11 +59,16 @@ namespace edsp { inline namespace types {
         typedef std::ptrdiff_t difference_type;
         typedef std::array<T, MaxSize> container_type;
 
-        fixed_ring_buffer()                             = default;
-        fixed_ring_buffer(const fixed_ring_buffer&)     = default;
-        fixed_ring_buffer(fixed_ring_buffer&&) noexcept = default;
-        fixed_ring_buffer& operator=(const fixed_ring_buffer&) = default;
-        fixed_ring_buffer& operator=(fixed_ring_buffer&&) noexcept = default;
+        fixed_ring_buffer() = default;
+        fixed_ring_buffer(const fixed_ring_buffer& other) {
+            assign(other);
+        }
+        fixed_ring_buffer& operator=(const fixed_ring_buffer& other) {
+            if (this != &other) {
+                assign(other);
+            }
+            return *this;
+        }
 
         /**
          *  @brief Default destructor.
@@ -266,7 +272,7 @@ namespace edsp { inline namespace types {
          *  see at().)
          */
         reference operator[](std::size_t i) {
-            return ring_[i];
+            return *(begin() + static_cast<int>(i));
         }
 
         /**
@@ -281,7 +287,7 @@ namespace edsp { inline namespace types {
          *  see at().)
          */
         const_reference operator[](std::size_t i) const {
-            return ring_[i];
+            return *(begin() + static_cast<int>(i));
         }
 
         /**
@@ -296,7 +302,10 @@ namespace edsp { inline namespace types {
          *  function throws out_of_range if the check fails.
          */
         reference at(std::size_t i) {
-            return ring_.at(i);
+            if (i >= size()) {
+                throw std::out_of_range("fixed_ring_buffer::at");
+            }
+            return (*this)[i];
         }
 
         /**
@@ -311,7 +320,10 @@ namespace edsp { inline namespace types {
          *  function throws out_of_range if the check fails.
          */
         const_reference at(std::size_t i) const {
-            return ring_.at(i);
+            if (i >= size()) {
+                throw std::out_of_range("fixed_ring_buffer::at");
+            }
+            return (*this)[i];
         }
 
         /**
@@ -426,11 +438,19 @@ namespace edsp { inline namespace types {
          * @brief Returns a const pointer to the underlying data of the internal buffer
          * @return Array holding the internal data.
          */
-        const_pointer* data() const {
+        const value_type* data() const {
             return buffer_.data();
         }
 
     private:
+        // Stores a copy of the elements of another buffer in our own storage
+        void assign(const fixed_ring_buffer& other) {
+            clear();
+            for (const auto& item : other) {
+                push_back(item);
+            }
+        }
+
         container_type buffer_{};
         edsp::ring_span<T> ring_{std::begin(buffer_), std::end(buffer_)};
     };
diff --git a/include/edsp/types/ring_buffer.hpp b/include/edsp/types/ring_buffer.hpp
index f3e6da6..efbf18a 100644
--- a/include/edsp/types/ring_buffer.hpp
+++ b/include/edsp/types/ring_buffer.hpp
@@ -28,6 +28,7 @@
 
 #include <edsp/meta/unused.hpp>
 #include <edsp/types/ring_span.hpp>
+#include <stdexcept>
 #include <vector>
 
 namespace edsp { inline namespace types {
@@ -45,7 +46,6 @@ namespace edsp { inline namespace types {
      * @tparam T  Type of element.
      * @tparam Allocator  Allocator type, defaults to std::allocator<T>.
      */
-    // TODO: Check why the default copy constructor is disabled!
     template <typename T, typename Allocator = std::allocator<T>>
     class ring_buffer {
     public:
@@ -62,11 +62,28 @@ namespace edsp { inline namespace types {
         typedef std::ptrdiff_t difference_type;
         typedef std::vector<T, Allocator> container_type;
 
-        constexpr ring_buffer()                       = default;
-        constexpr ring_buffer(const ring_buffer&)     = default;
-        constexpr ring_buffer(ring_buffer&&) noexcept = default;
-        constexpr ring_buffer& operator=(const ring_buffer&) = default;
-        constexpr ring_buffer& operator=(ring_buffer&&) noexcept = default;
+        ring_buffer() = default;
+        ring_buffer(const ring_buffer& other) : buffer_(other.buffer_) {
+            assign(other);
+        }
+        ring_buffer(ring_buffer&& other) noexcept : buffer_(std::move(other.buffer_)), ring_(std::move(other.ring_)) {
+            other.resize(0);
+        }
+        ring_buffer& operator=(const ring_buffer& other) {
+            if (this != &other) {
+                buffer_ = other.buffer_;
+                assign(other);
+            }
+            return *this;
+        }
+        ring_buffer& operator=(ring_buffer&& other) noexcept {
+            if (this != &other) {
+                buffer_ = std::move(other.buffer_);
+                ring_   = std::move(other.ring_);
+                other.resize(0);
+            }
+            return *this;
+        }
 
         /**
          *  @brief Creates a %ring_buffer with default constructed elements.
@@ -304,7 +321,7 @@ namespace edsp { inline namespace types {
          *  see at().)
          */
         reference operator[](std::size_t i) {
-            return ring_[i];
+            return *(begin() + static_cast<int>(i));
         }
 
         /**
@@ -319,7 +336,7 @@ namespace edsp { inline namespace types {
          *  see at().)
          */
         const_reference operator[](std::size_t i) const {
-            return ring_[i];
+            return *(begin() + static_cast<int>(i));
         }
 
         /**
@@ -334,7 +351,10 @@ namespace edsp { inline namespace types {
          *  function throws out_of_range if the check fails.
          */
         reference at(std::size_t i) {
-            return ring_.at(i);
+            if (i >= size()) {
+                throw std::out_of_range("ring_buffer::at");
+            }
+            return (*this)[i];
         }
 
         /**
@@ -349,7 +369,10 @@ namespace edsp { inline namespace types {
          *  function throws out_of_range if the check fails.
          */
         const_reference at(std::size_t i) const {
-            return ring_.at(i);
+            if (i >= size()) {
+                throw std::out_of_range("ring_buffer::at");
+            }
+            return (*this)[i];
         }
 
         /**
@@ -463,11 +486,19 @@ namespace edsp { inline namespace types {
          * @brief Returns a const pointer to the underlying data of the internal buffer
          * @return Array holding the internal data.
          */
-        const_pointer* data() const {
+        const value_type* data() const {
             return buffer_.data();
         }
 
     private:
+        // Stores a copy of the elements of another buffer, of the same capacity, in our own storage
+        void assign(const ring_buffer& other) {
+            ring_ = edsp::ring_span<T>(std::begin(buffer_), std::end(buffer_));
+            for (const auto& item : other) {
+                ring_.push_back(item);
+            }
+        }
+
         container_type buffer_{};
         edsp::ring_span<T> ring_{std::begin(buffer_), std::end(buffer_)};
     };
-- 
2.43.0


From 38a2cbca8d56ab55b19d8fe3caaa54a893acc993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:42:24 +0000
Subject: [PATCH 02/96] fix: statistics: compute the median instead of
 returning zero

---
 include/edsp/statistics/median.hpp | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/include/edsp/statistics/median.hpp b/include/edsp/statistics/median.hpp
index 2da6ad5..365e086 100644
--- a/include/edsp/statistics/median.hpp
+++ b/include/edsp/statistics/median.hpp
@@ -23,9 +23,8 @@
 #define EDSP_STATISTICAL_MEDIANT_HPP
 
 #include <edsp/meta/iterator.hpp>
-#include <edsp/meta/unused.hpp>
 #include <algorithm>
-#include <numeric>
+#include <vector>
 
 namespace edsp { namespace statistics {
 
@@ -41,11 +40,18 @@ namespace edsp { namespace statistics {
      * @returns The median of the input range.
      */
     template <typename ForwardIt>
-    constexpr meta::value_type_t<ForwardIt> median(ForwardIt first, ForwardIt last) {
-        // TODO: implement the median: do not use sorting algorithm.
-        meta::unused(first);
-        meta::unused(last);
-        return 0;
+    meta::value_type_t<ForwardIt> median(ForwardIt first, ForwardIt last) {
+        using value_type = meta::value_type_t<ForwardIt>;
+        std::vector<value_type> values(first, last);
+        if (values.empty()) {
+            return value_type{};
+        }
+        const auto middle = std::begin(values) + values.size() / 2;
+        std::nth_element(std::begin(values), middle, std::end(values));
+        if (values.size() % 2 != 0) {
+            return *middle;
+        }
+        return (*std::max_element(std::begin(values), middle) + *middle) / static_cast<value_type>(2);
     }
 
 }} // namespace edsp::statistics
-- 
2.43.0


From cb2703cf6958d83d94412633046ac311e394d5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:43:43 +0000
Subject: [PATCH 03/96] fix: moving filters: reset and resize restore the
 initial state; no negative energy

---
 include/edsp/filter/moving_average_filter.hpp | 5 +++--
 include/edsp/filter/moving_median_filter.hpp  | 4 ++--
 include/edsp/filter/moving_rms_filter.hpp     | 8 +++++---
 3 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/include/edsp/filter/moving_average_filter.hpp b/include/edsp/filter/moving_average_filter.hpp
index 1df4456..2a8fd2c 100644
--- a/include/edsp/filter/moving_average_filter.hpp
+++ b/include/edsp/filter/moving_average_filter.hpp
@@ -105,7 +105,7 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_average<T, Allocator>::reset() {
-        window_.clear();
+        resize(window_.capacity());
     }
 
     template <typename T, typename Allocator>
@@ -116,7 +116,8 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_average<T, Allocator>::resize(size_type N) {
-        window_.resize(N);
+        window_ = edsp::ring_buffer<T, Allocator>(N, T());
+        accumulated_ = T(0);
     }
 
     template <typename T, typename Allocator>
diff --git a/include/edsp/filter/moving_median_filter.hpp b/include/edsp/filter/moving_median_filter.hpp
index a8251b7..c7abdf0 100644
--- a/include/edsp/filter/moving_median_filter.hpp
+++ b/include/edsp/filter/moving_median_filter.hpp
@@ -100,7 +100,7 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_median<T, Allocator>::reset() {
-        window_.clear();
+        resize(window_.capacity());
     }
 
     template <typename T, typename Allocator>
@@ -111,7 +111,7 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_median<T, Allocator>::resize(size_type N) {
-        window_.resize(N);
+        window_ = edsp::ring_buffer<T, Allocator>(N, T());
     }
 
     template <typename T, typename Allocator>
diff --git a/include/edsp/filter/moving_rms_filter.hpp b/include/edsp/filter/moving_rms_filter.hpp
index 92dde0f..60621bf 100644
--- a/include/edsp/filter/moving_rms_filter.hpp
+++ b/include/edsp/filter/moving_rms_filter.hpp
@@ -23,6 +23,7 @@
 #define EDSP_MOVING_RMS_FILTER_HPP
 
 #include <edsp/types/ring_buffer.hpp>
+#include <algorithm>
 #include <cmath>
 
 namespace edsp { namespace filter {
@@ -106,7 +107,7 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_rms<T, Allocator>::reset() {
-        window_.clear();
+        resize(window_.capacity());
     }
 
     template <typename T, typename Allocator>
@@ -117,13 +118,14 @@ namespace edsp { namespace filter {
 
     template <typename T, typename Allocator>
     void moving_rms<T, Allocator>::resize(size_type N) {
-        window_.resize(N);
+        window_ = edsp::ring_buffer<T, Allocator>(N, T());
+        accumulated_ = T(0);
     }
 
     template <typename T, typename Allocator>
     typename moving_rms<T, Allocator>::value_type moving_rms<T, Allocator>::operator()(value_type tick) {
         const auto sqr = tick * tick;
-        accumulated_ -= window_.front();
+        accumulated_ = std::max(accumulated_ - window_.front(), T(0)); // rounding must not leave a negative energy
         accumulated_ += sqr;
         window_.push_back(sqr);
         return std::sqrt(accumulated_ / static_cast<T>(window_.size()));
-- 
2.43.0


From 79f58d1e55a4d77c410d0f87a1325e76429482a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:33 +0000
Subject: [PATCH 04/96] fix: biquad: a pole/zero section has its zero at the
 given position

---
 include/edsp/filter/biquad.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/filter/biquad.hpp b/include/edsp/filter/biquad.hpp
index 52b5be2..28bcdca 100644
--- a/include/edsp/filter/biquad.hpp
+++ b/include/edsp/filter/biquad.hpp
@@ -232,8 +232,8 @@ namespace edsp { namespace filter {
     template <typename T>
     constexpr biquad<T>::biquad(const std::complex<T>& pole, const std::complex<T>& zero) :
         b2_(0),
-        b1_(1),
-        b0_(-zero.real()),
+        b1_(-zero.real()),
+        b0_(1),
         a2_(0),
         a1_(-pole.real()),
         a0_(1) {
-- 
2.43.0


From cf0f3b94f9778ad9e8f56330994f314e21b0e6c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:33 +0000
Subject: [PATCH 05/96] fix: biquad: a0 set after construction takes part in
 the difference equation

---
 include/edsp/filter/biquad.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/edsp/filter/biquad.hpp b/include/edsp/filter/biquad.hpp
index 28bcdca..f4d6ff6 100644
--- a/include/edsp/filter/biquad.hpp
+++ b/include/edsp/filter/biquad.hpp
@@ -275,7 +275,9 @@ namespace edsp { namespace filter {
 
     template <typename T>
     constexpr bool biquad<T>::stability() const noexcept {
-        return std::abs(a2_) < 1 && (std::abs(a1_) < (1 + a2_));
+        const auto a1 = a1_ / a0_;
+        const auto a2 = a2_ / a0_;
+        return std::abs(a2) < 1 && (std::abs(a1) < (1 + a2));
     }
 
     template <typename T>
@@ -324,7 +326,7 @@ namespace edsp { namespace filter {
 
     template <typename T>
     constexpr typename biquad<T>::value_type biquad<T>::tick(const value_type value) noexcept {
-        const auto out = b0_ * value + w0_;
+        const auto out = (b0_ * value + w0_) / a0_;
         w0_            = b1_ * value - a1_ * out + w1_;
         w1_            = b2_ * value - a2_ * out;
         return out;
-- 
2.43.0


From 6bcdc2230166c402c9f69285c4c92facf485773b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:33 +0000
Subject: [PATCH 06/96] fix: band-pass designs: unit gain at the centre of the
 band

---
 include/edsp/filter/internal/bilinear/bandpass_transformer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/filter/internal/bilinear/bandpass_transformer.hpp b/include/edsp/filter/internal/bilinear/bandpass_transformer.hpp
index 79d29d0..849d642 100644
--- a/include/edsp/filter/internal/bilinear/bandpass_transformer.hpp
+++ b/include/edsp/filter/internal/bilinear/bandpass_transformer.hpp
@@ -76,7 +76,7 @@ namespace edsp { namespace filter {
             }
 
             const auto wn = analog.w();
-            digital.set_w(2 * std::atan(std::sqrt(std::tan((wc + wn) * 0.5) + std::tan((wc2 + wn) * 0.5))));
+            digital.set_w(2 * std::atan(std::sqrt(std::tan((wc + wn) * 0.5) * std::tan((wc2 + wn) * 0.5))));
             digital.set_gain(analog.gain());
         }
 
-- 
2.43.0


From 0e4427c07879d2fb37e7c35c745630c23729376d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:33 +0000
Subject: [PATCH 07/96] fix: band-stop designs: stop band at the requested
 edges

---
 include/edsp/filter/internal/bilinear/bandstop_transformer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/filter/internal/bilinear/bandstop_transformer.hpp b/include/edsp/filter/internal/bilinear/bandstop_transformer.hpp
index 909fc0d..3cddf91 100644
--- a/include/edsp/filter/internal/bilinear/bandstop_transformer.hpp
+++ b/include/edsp/filter/internal/bilinear/bandstop_transformer.hpp
@@ -47,7 +47,7 @@ namespace edsp { namespace filter {
                 wc = constants<T>::pi - 1e-8;
 
             a  = std::cos((wc + wc2) * 0.5) / std::cos((wc - wc2) * 0.5);
-            b  = math::inv(std::tan((wc - wc2) * 0.5));
+            b  = std::tan((wc - wc2) * 0.5);
             a2 = a * a;
             b2 = b * b;
         }
-- 
2.43.0


From 097717922c6c844ddb1066029a592ccc8766c88f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:47:33 +0000
Subject: [PATCH 08/96] fix: Zoelzer shelving filters: cuts attenuate

---
 include/edsp/filter/internal/zoelzer_designer.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/edsp/filter/internal/zoelzer_designer.hpp b/include/edsp/filter/internal/zoelzer_designer.hpp
index acaab1d..3fd9a26 100644
--- a/include/edsp/filter/internal/zoelzer_designer.hpp
+++ b/include/edsp/filter/internal/zoelzer_designer.hpp
@@ -82,7 +82,7 @@ namespace edsp { namespace filter {
     struct ZoelzerFilterDesigner<T, filter_type::LowShelf> {
         constexpr biquad<T> operator()(T fc, T sample_rate, T Q, T gain_db = 1) const {
             meta::unused(Q);
-            const auto V = db2mag(gain_db);
+            const auto V = db2mag(std::abs(gain_db));
             const auto K = std::tan(constants<T>::pi * fc / sample_rate);
             if (gain_db >= 0) { // boost
                 const auto norm = 1 / (1 + constants<T>::root_two * K + K * K);
@@ -108,7 +108,7 @@ namespace edsp { namespace filter {
     struct ZoelzerFilterDesigner<T, filter_type::HighShelf> {
         constexpr biquad<T> operator()(T fc, T sample_rate, T Q, T gain_db = 1) const {
             meta::unused(Q);
-            const auto V = db2mag(gain_db);
+            const auto V = db2mag(std::abs(gain_db));
             const auto K = std::tan(constants<T>::pi * fc / sample_rate);
             if (gain_db >= 0) { // boost
                 const auto norm = 1 / (1 + constants<T>::root_two * K + K * K);
@@ -125,7 +125,7 @@ namespace edsp { namespace filter {
                 const auto b2   = (1 - constants<T>::root_two * K + K * K) * norm;
                 const auto a1   = 2 * (K * K - V) * norm;
                 const auto a2   = (V - std::sqrt(2 * V) * K + K * K) * norm;
-                return biquad<T>(b0, b1, b2, a1, a1, a2);
+                return biquad<T>(1, a1, a2, b0, b1, b2);
             }
         }
     };
-- 
2.43.0


From 95b8c016ac398b1ff3db92488839ef3dee1aceb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:56:56 +0000
Subject: [PATCH 09/96] fix: square oscillator: active during the duty cycle,
 also after a change of frequency

---
 include/edsp/oscillators/sinusoidal.hpp | 3 ++-
 include/edsp/oscillators/square.hpp     | 8 ++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/edsp/oscillators/sinusoidal.hpp b/include/edsp/oscillators/sinusoidal.hpp
index aa93f17..71b3204 100644
--- a/include/edsp/oscillators/sinusoidal.hpp
+++ b/include/edsp/oscillators/sinusoidal.hpp
@@ -183,7 +183,8 @@ namespace edsp { namespace oscillators {
 
     template <typename T>
     constexpr void oscillator<T>::set_frequency(value_type frequency) noexcept {
-        frequency_ = frequency;
+        frequency_         = frequency;
+        inverse_frequency_ = math::inv(frequency);
     }
 
     template <typename T>
diff --git a/include/edsp/oscillators/square.hpp b/include/edsp/oscillators/square.hpp
index af62169..78a4d8b 100644
--- a/include/edsp/oscillators/square.hpp
+++ b/include/edsp/oscillators/square.hpp
@@ -98,19 +98,19 @@ namespace edsp { namespace oscillators {
     template <typename T>
     constexpr void square_oscillator<T>::set_duty(value_type duty) noexcept {
         meta::expects(duty >= 0 && duty <= 1, "duty must be a real number between 0 and 1.");
-        duty_ = duty * oscillator<T>::inverse_frequency_;
+        duty_ = duty;
     }
 
     template <typename T>
     constexpr typename square_oscillator<T>::value_type square_oscillator<T>::duty() const noexcept {
-        return duty_ * oscillator<T>::frequency_;
+        return duty_;
     }
 
     template <typename T>
     constexpr typename square_oscillator<T>::value_type square_oscillator<T>::operator()() {
-        const auto current_t = std::fmod(oscillator<T>::timestamp_, oscillator<T>::inverse_frequency_);
+        const auto current_t = std::fmod(oscillator<T>::frequency_ * oscillator<T>::timestamp_, 1);
         oscillator<T>::set_timestamp(oscillator<T>::timestamp_ + oscillator<T>::sampling_period_);
-        return (current_t >= duty_ ? 1 : -1) * oscillator<T>::amplitude_;
+        return (current_t < duty_ ? 1 : -1) * oscillator<T>::amplitude_;
     }
 
 }} // namespace edsp::oscillators
-- 
2.43.0


From c7aa97bc9d89b4c03b3e26224614c87d80e153ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:22 +0000
Subject: [PATCH 10/96] fix: adsr: release_rate returns the release rate

---
 include/edsp/experimental/envelope/adsr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/experimental/envelope/adsr.hpp b/include/edsp/experimental/envelope/adsr.hpp
index d7b0659..a625fc9 100644
--- a/include/edsp/experimental/envelope/adsr.hpp
+++ b/include/edsp/experimental/envelope/adsr.hpp
@@ -68,7 +68,7 @@ namespace edsp { namespace envelope {
         }
 
         constexpr value_type release_rate() const {
-            return release_time_;
+            return release_rate_;
         }
 
         constexpr value_type decay_rate() const {
-- 
2.43.0


From 5feb1babfaafc84f7c1cdae280c5d97cacf5a8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:22 +0000
Subject: [PATCH 11/96] fix: ar envelope: attack and release gains follow the
 configured times

---
 include/edsp/experimental/envelope/ar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/experimental/envelope/ar.hpp b/include/edsp/experimental/envelope/ar.hpp
index 1333b07..d27e55f 100644
--- a/include/edsp/experimental/envelope/ar.hpp
+++ b/include/edsp/experimental/envelope/ar.hpp
@@ -197,9 +197,9 @@ namespace edsp { namespace envelope {
 
     template <typename T>
     constexpr void ar<T>::reset() noexcept {
-        attack_gain_ = (attack_gain_ > 0) ? static_cast<value_type>(std::exp(-1 / (attack_time_ * sample_rate_))) : 0;
+        attack_gain_ = (attack_time_ > 0) ? static_cast<value_type>(std::exp(-1000 / (attack_time_ * sample_rate_))) : 0;
         release_gain_ =
-            (release_gain_ > 0) ? static_cast<value_type>(std::exp(-1 / (release_time_ * sample_rate_))) : 0;
+            (release_time_ > 0) ? static_cast<value_type>(std::exp(-1000 / (release_time_ * sample_rate_))) : 0;
         last_ = 0;
     }
 
-- 
2.43.0


From fa4cc1dcb8865687707f101e78edbfdef8b7aabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:57:32 +0000
Subject: [PATCH 12/96] fix: mu-law companding: usable, and expansion inverts
 compression

---
 include/edsp/experimental/quantizer/mu_law_compressor.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/edsp/experimental/quantizer/mu_law_compressor.hpp b/include/edsp/experimental/quantizer/mu_law_compressor.hpp
index 98fc255..2b8c469 100644
--- a/include/edsp/experimental/quantizer/mu_law_compressor.hpp
+++ b/include/edsp/experimental/quantizer/mu_law_compressor.hpp
@@ -51,7 +51,7 @@ namespace edsp { namespace quantizer {
         meta::expects(absolute_max_value > 0, "Expected a maximum absolute value higher than zero");
         meta::expects(compression_factor > 0, "The compression factor should be a positive number");
         using value_type  = meta::value_type_t<InputIt>;
-        const auto lambda = [absolute_max_value](const value_type input) -> value_type {
+        const auto lambda = [absolute_max_value, compression_factor](const value_type input) -> value_type {
             const auto ratio = std::fabs(input) / absolute_max_value;
             return math::sign(input) * absolute_max_value *
                    std::log(static_cast<value_type>(1 + compression_factor * ratio)) /
@@ -83,11 +83,11 @@ namespace edsp { namespace quantizer {
         meta::expects(absolute_max_value > 0, "Expected a maximum absolute value higher than zero");
         meta::expects(compression_factor > 0, "The compression factor should be a positive number");
         using value_type  = meta::value_type_t<InputIt>;
-        const auto lambda = [absolute_max_value](const value_type input) -> value_type {
+        const auto lambda = [absolute_max_value, compression_factor](const value_type input) -> value_type {
             const auto ratio = std::fabs(input) / absolute_max_value;
             return math::sign(input) * absolute_max_value *
                    (std::pow(static_cast<value_type>(1 + compression_factor), ratio) - 1) /
-                   std::log(static_cast<value_type>(1 + compression_factor));
+                   compression_factor;
         };
         std::transform(first, last, d_first, std::cref(lambda));
     }
-- 
2.43.0


From c5fcdfd3cabd5e2063e592b635635936acc28f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:52 +0000
Subject: [PATCH 13/96] fix: fft_engine: one engine serves every kind of
 transform and can be copied

---
 .../edsp/spectral/internal/libfftw_impl.hpp   | 100 ++++++++++++++----
 1 file changed, 80 insertions(+), 20 deletions(-)

diff --git a/include/edsp/spectral/internal/libfftw_impl.hpp b/include/edsp/spectral/internal/libfftw_impl.hpp
index f015ea7..31af931 100644
--- a/include/edsp/spectral/internal/libfftw_impl.hpp
+++ b/include/edsp/spectral/internal/libfftw_impl.hpp
@@ -59,22 +59,22 @@ namespace edsp { inline namespace spectral {
         using size_type    = int;
 
         explicit fftw_impl(size_type nfft) : nfft_(nfft) {}
+        fftw_impl(const fftw_impl& other) : nfft_(other.nfft_) {}
+        fftw_impl& operator=(const fftw_impl&) = delete;
 
         ~fftw_impl() {
-            if (!meta::is_null(plan_)) {
-                fftwf_destroy_plan(plan_);
-            }
+            release();
         }
 
         inline void dft(const complex_type* src, complex_type* dst) {
-            if (meta::is_null(plan_))
+            if (!prepared(transform::forward, src, dst))
                 plan_ = fftwf_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_FORWARD,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             fftwf_execute_dft(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, complex_type* dst) {
-            if (meta::is_null(plan_)) {
+            if (!prepared(transform::backward, src, dst)) {
                 plan_ = fftwf_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_BACKWARD,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -82,7 +82,7 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void dft(const value_type* src, complex_type* dst) {
-            if (meta::is_null(plan_)) {
+            if (!prepared(transform::real_forward, src, dst)) {
                 plan_ = fftwf_plan_dft_r2c_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                               FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -90,7 +90,7 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void idft(const complex_type* src, value_type* dst) {
-            if (meta::is_null(plan_)) {
+            if (!prepared(transform::real_backward, src, dst)) {
                 plan_ = fftwf_plan_dft_c2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                               FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -98,7 +98,7 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void dht(const value_type* src, value_type* dst) {
-            if (meta::is_null(plan_)) {
+            if (!prepared(transform::hartley, src, dst)) {
                 plan_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_DHT,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -106,7 +106,7 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void dct(const value_type* src, value_type* dst) {
-            if (meta::is_null(plan_)) {
+            if (!prepared(transform::cosine, src, dst)) {
                 plan_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT10,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -114,7 +114,7 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void idct(const value_type* src, value_type* dst) {
-            if (meta::is_null(plan_)) {
+            if (!prepared(transform::inverse_cosine, src, dst)) {
                 plan_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT01,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -143,7 +143,37 @@ namespace edsp { inline namespace spectral {
         }
 
     private:
+        enum class transform { forward, backward, real_forward, real_backward, hartley, cosine, inverse_cosine };
+
+        inline void release() {
+            if (!meta::is_null(plan_)) {
+                fftwf_destroy_plan(plan_);
+                plan_ = nullptr;
+            }
+        }
+
+        // a plan serves one kind of transform and arrays which coincide and are aligned as those it was made for
+        inline bool prepared(transform kind, const void* src, const void* dst) {
+            const auto in_place      = src == dst;
+            const auto src_alignment = fftwf_alignment_of(static_cast<value_type*>(const_cast<void*>(src)));
+            const auto dst_alignment = fftwf_alignment_of(static_cast<value_type*>(const_cast<void*>(dst)));
+            if (!meta::is_null(plan_) && kind_ == kind && in_place_ == in_place && src_alignment_ == src_alignment &&
+                dst_alignment_ == dst_alignment) {
+                return true;
+            }
+            release();
+            kind_          = kind;
+            in_place_      = in_place;
+            src_alignment_ = src_alignment;
+            dst_alignment_ = dst_alignment;
+            return false;
+        }
+
         ::fftwf_plan plan_{nullptr};
+        transform kind_{transform::forward};
+        bool in_place_{false};
+        int src_alignment_{0};
+        int dst_alignment_{0};
         size_type nfft_;
     };
 
@@ -154,43 +184,43 @@ namespace edsp { inline namespace spectral {
         using size_type    = int;
 
         explicit fftw_impl(size_type nfft) : nfft_(nfft) {}
+        fftw_impl(const fftw_impl& other) : nfft_(other.nfft_) {}
+        fftw_impl& operator=(const fftw_impl&) = delete;
 
         ~fftw_impl() {
-            if (!meta::is_null(plan_)) {
-                fftw_destroy_plan(plan_);
-            }
+            release();
         }
 
         inline void dft(const complex_type* src, complex_type* dst) {
-            if (meta::is_null(plan_))
+            if (!prepared(transform::forward, src, dst))
                 plan_ = fftw_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_FORWARD,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             fftw_execute_dft(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, complex_type* dst) {
-            if (meta::is_null(plan_))
+            if (!prepared(transform::backward, src, dst))
                 plan_ = fftw_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_BACKWARD,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             fftw_execute_dft(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void dft(const value_type* src, complex_type* dst) {
-            if (meta::is_null(plan_))
+            if (!prepared(transform::real_forward, src, dst))
                 plan_ = fftw_plan_dft_r2c_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                              FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             fftw_execute_dft_r2c(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, value_type* dst) {
-            if (meta::is_null(plan_))
+            if (!prepared(transform::real_backward, src, dst))
                 plan_ = fftw_plan_dft_c2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                              FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             fftw_execute_dft_c2r(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void dht(const value_type* src, value_type* dst) {
-            if (meta::is_null(plan_)) {
+            if (!prepared(transform::hartley, src, dst)) {
                 plan_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_DHT,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -198,7 +228,7 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void dct(const value_type* src, value_type* dst) {
-            if (meta::is_null(plan_)) {
+            if (!prepared(transform::cosine, src, dst)) {
                 plan_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT10,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -206,7 +236,7 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void idct(const value_type* src, value_type* dst) {
-            if (meta::is_null(plan_)) {
+            if (!prepared(transform::inverse_cosine, src, dst)) {
                 plan_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT01,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -235,7 +265,37 @@ namespace edsp { inline namespace spectral {
         }
 
     private:
+        enum class transform { forward, backward, real_forward, real_backward, hartley, cosine, inverse_cosine };
+
+        inline void release() {
+            if (!meta::is_null(plan_)) {
+                fftw_destroy_plan(plan_);
+                plan_ = nullptr;
+            }
+        }
+
+        // a plan serves one kind of transform and arrays which coincide and are aligned as those it was made for
+        inline bool prepared(transform kind, const void* src, const void* dst) {
+            const auto in_place      = src == dst;
+            const auto src_alignment = fftw_alignment_of(static_cast<value_type*>(const_cast<void*>(src)));
+            const auto dst_alignment = fftw_alignment_of(static_cast<value_type*>(const_cast<void*>(dst)));
+            if (!meta::is_null(plan_) && kind_ == kind && in_place_ == in_place && src_alignment_ == src_alignment &&
+                dst_alignment_ == dst_alignment) {
+                return true;
+            }
+            release();
+            kind_          = kind;
+            in_place_      = in_place;
+            src_alignment_ = src_alignment;
+            dst_alignment_ = dst_alignment;
+            return false;
+        }
+
         ::fftw_plan plan_{nullptr};
+        transform kind_{transform::forward};
+        bool in_place_{false};
+        int src_alignment_{0};
+        int dst_alignment_{0};
         size_type nfft_;
     };
 }} // namespace edsp::spectral
-- 
2.43.0


From c96ec5b55a11cfed06d34197b399509eae8e83e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:03:52 +0000
Subject: [PATCH 14/96] fix: xcorr: biased and unbiased scaling

---
 include/edsp/spectral/correlation.hpp | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/edsp/spectral/correlation.hpp b/include/edsp/spectral/correlation.hpp
index b67dfeb..8aba877 100644
--- a/include/edsp/spectral/correlation.hpp
+++ b/include/edsp/spectral/correlation.hpp
@@ -75,9 +75,13 @@ namespace edsp { inline namespace spectral {
             [](const std::complex<value_type>& val) -> std::complex<value_type> { return val * std::conj(val); });
 
         ifft_.idft(meta::data(fft_data_), meta::data(temp_output));
-        const auto factor = static_cast<value_type>(nfft * (scale == CorrelationScale::Biased ? nfft : 1));
-        std::transform(std::cbegin(temp_output), std::cbegin(temp_output) + size, d_first,
-                       [factor](value_type val) { return val / factor; });
+        ifft_.idft_scale(meta::data(temp_output));
+        for (meta::diff_type_t<InputIt> lag = 0; lag < size; ++lag, ++d_first) {
+            const auto factor = scale == CorrelationScale::Biased     ? size
+                                : scale == CorrelationScale::Unbiased ? size - lag
+                                                                      : 1;
+            *d_first          = temp_output[lag] / static_cast<value_type>(factor);
+        }
     }
 
     /**
@@ -126,9 +130,13 @@ namespace edsp { inline namespace spectral {
                            -> std::complex<value_type> { return left * std::conj(right); });
 
         ifft_.idft(meta::data(fft_data1), meta::data(temp_output));
-        const auto factor = static_cast<value_type>(nfft * (scale == CorrelationScale::Biased ? nfft : 1));
-        std::transform(std::cbegin(temp_output), std::cbegin(temp_output) + size, d_first,
-                       [factor](value_type val) { return val / factor; });
+        ifft_.idft_scale(meta::data(temp_output));
+        for (meta::diff_type_t<InputIt> lag = 0; lag < size; ++lag, ++d_first) {
+            const auto factor = scale == CorrelationScale::Biased     ? size
+                                : scale == CorrelationScale::Unbiased ? size - lag
+                                                                      : 1;
+            *d_first          = temp_output[lag] / static_cast<value_type>(factor);
+        }
     }
 
 }}     // namespace edsp::spectral
-- 
2.43.0


From a68f925ebc8570e7f3675caf51e492010eaa7049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:37 +0000
Subject: [PATCH 15/96] fix: moment: the moment of order zero is one

---
 include/edsp/statistics/moment.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/statistics/moment.hpp b/include/edsp/statistics/moment.hpp
index 03f490c..efce357 100644
--- a/include/edsp/statistics/moment.hpp
+++ b/include/edsp/statistics/moment.hpp
@@ -34,8 +34,8 @@ namespace edsp { namespace statistics {
         // From: https://gist.github.com/ofZach/4014022
         template <int N, class T>
         constexpr T nthPower(T x) {
-            T ret = x;
-            for (int i = 1; i < N; ++i) {
+            T ret = static_cast<T>(1);
+            for (int i = 0; i < N; ++i) {
                 ret *= x;
             }
             return ret;
-- 
2.43.0


From 918b286617e4c9f56b45568271b2eb60b17f0d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:37 +0000
Subject: [PATCH 16/96] fix: rms: the accumulation starts at zero

---
 include/edsp/feature/temporal/rms.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/temporal/rms.hpp b/include/edsp/feature/temporal/rms.hpp
index 8249985..ac287f7 100644
--- a/include/edsp/feature/temporal/rms.hpp
+++ b/include/edsp/feature/temporal/rms.hpp
@@ -42,7 +42,7 @@ namespace edsp { namespace feature { inline namespace temporal {
     template <typename ForwardIt>
     constexpr auto rms(ForwardIt first, ForwardIt last) {
         using value_type       = typename std::iterator_traits<ForwardIt>::value_type;
-        const auto accumulated = std::inner_product(first, last, first, static_cast<value_type>(1));
+        const auto accumulated = std::inner_product(first, last, first, static_cast<value_type>(0));
         return std::sqrt(accumulated / static_cast<value_type>(std::distance(first, last)));
     }
 }}} // namespace edsp::feature::temporal
-- 
2.43.0


From 68408f6a3a8e5aacd1f2529b3547bf398fc5dc78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:37 +0000
Subject: [PATCH 17/96] fix: snr: the variance of the reference covers the
 first range

---
 include/edsp/feature/temporal/snr.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/temporal/snr.hpp b/include/edsp/feature/temporal/snr.hpp
index 2ec7912..23b3166 100644
--- a/include/edsp/feature/temporal/snr.hpp
+++ b/include/edsp/feature/temporal/snr.hpp
@@ -56,7 +56,7 @@ namespace edsp { namespace feature { inline namespace temporal {
         std::transform(first1, last1, first2, std::begin(noise),
                        [](const value_type left, const value_type right) { return left - right; });
 
-        const auto var_ref   = statistics::variance(first1, first2);
+        const auto var_ref   = statistics::variance(first1, last1);
         const auto var_noise = statistics::variance(std::cbegin(noise), std::cend(noise));
         return converter::pow2db(var_ref / var_noise);
     }
-- 
2.43.0


From ce6f4c0aca065117bf4f85011b9d843fe07da42e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:37 +0000
Subject: [PATCH 18/96] fix: continuous_leq compiles

---
 include/edsp/feature/temporal/leq.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/edsp/feature/temporal/leq.hpp b/include/edsp/feature/temporal/leq.hpp
index c7fdb72..0e643c2 100644
--- a/include/edsp/feature/temporal/leq.hpp
+++ b/include/edsp/feature/temporal/leq.hpp
@@ -28,7 +28,7 @@
 #define EDSP_LEQ_HPP
 
 #include <edsp/filter/moving_average_filter.hpp>
-#include <edsp/feature/temporal/energy.hpp>
+#include <edsp/feature/temporal/power.hpp>
 #include <edsp/converter/pow2db.hpp>
 
 namespace edsp { namespace feature { inline namespace temporal {
@@ -61,7 +61,7 @@ namespace edsp { namespace feature { inline namespace temporal {
          * @brief Creates a leq estimator.
          * @param number_frames Number of frames over time of interest to compute the equivalent sound level.
          */
-        explicit continuous_leq(size_type number_frames) : filter(number_frames) {}
+        explicit continuous_leq(size_type number_frames) : filter_(number_frames) {}
 
         /**
          * @brief Default destructor.
@@ -79,11 +79,11 @@ namespace edsp { namespace feature { inline namespace temporal {
          */
         template <typename ForwardIt>
         value_type extract(ForwardIt first, ForwardIt last) {
-            return filter(leq(first, last));
+            return filter_(leq(first, last));
         }
 
     private:
-        filter::moving_average<T> filter;
+        edsp::filter::moving_average<T> filter_;
     };
 
 }}} // namespace edsp::feature::temporal
-- 
2.43.0


From 734453e93fa5f13151f6023b9524478f4e823369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:37 +0000
Subject: [PATCH 19/96] fix: slope: the number of points is that of the whole
 range

---
 include/edsp/feature/statistics/slope.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/statistics/slope.hpp b/include/edsp/feature/statistics/slope.hpp
index 3789591..446aec8 100644
--- a/include/edsp/feature/statistics/slope.hpp
+++ b/include/edsp/feature/statistics/slope.hpp
@@ -65,13 +65,13 @@ namespace edsp { namespace feature { inline namespace statistics {
         auto f_sum       = static_cast<value_type>(0);
         auto ff_sum      = static_cast<value_type>(0);
         auto mf_sum      = static_cast<value_type>(0);
+        const auto N     = static_cast<value_type>(std::distance(first1, last1));
         for (; first1 != last1; ++first1, ++first2) {
             m_sum += *first1;
             f_sum += *first2;
             mf_sum += (*first1) * (*first2);
             ff_sum += (*first2) * (*first2);
         }
-        const auto N = static_cast<value_type>(std::distance(first1, last1));
         return (1 / m_sum) * (N * mf_sum - f_sum * m_sum) / (N * ff_sum - (f_sum * f_sum));
     }
 
-- 
2.43.0


From c859ac7cdc53771d677547e7d49e889924525b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:37 +0000
Subject: [PATCH 20/96] fix: variation: normalized cross-correlation of the two
 spectra

---
 include/edsp/feature/spectral/spectral_variation.hpp | 2 +-
 include/edsp/feature/statistics/variation.hpp        | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/edsp/feature/spectral/spectral_variation.hpp b/include/edsp/feature/spectral/spectral_variation.hpp
index a9d8edb..2a973cd 100644
--- a/include/edsp/feature/spectral/spectral_variation.hpp
+++ b/include/edsp/feature/spectral/spectral_variation.hpp
@@ -40,7 +40,7 @@ namespace edsp { namespace feature { inline namespace spectral {
      *
      * \f[
      *
-     *  v = 1 - \frac{\sum_k X_1(k) X_2(K)  }{ \sqrt{ \sum_k X_1(k)} \sqrt{\sum_k X_2(k)}}
+     *  v = 1 - \frac{\sum_k X_1(k) X_2(K)  }{ \sqrt{ \sum_k X_1^2(k)} \sqrt{\sum_k X_2^2(k)}}
      *
      * \f]
      *
diff --git a/include/edsp/feature/statistics/variation.hpp b/include/edsp/feature/statistics/variation.hpp
index 5847d51..57105a1 100644
--- a/include/edsp/feature/statistics/variation.hpp
+++ b/include/edsp/feature/statistics/variation.hpp
@@ -41,7 +41,7 @@ namespace edsp { namespace feature { inline namespace statistics {
     *
     * \f[
     *
-    *  v = 1 - \frac{\sum_k X_1(k) X_2(K)  }{ \sqrt{ \sum_k X_1(k)} \sqrt{\sum_k X_2(k)}}
+    *  v = 1 - \frac{\sum_k X_1(k) X_2(K)  }{ \sqrt{ \sum_k X_1^2(k)} \sqrt{\sum_k X_2^2(k)}}
     *
     * \f]
     *
@@ -61,11 +61,11 @@ namespace edsp { namespace feature { inline namespace statistics {
         auto sum_x2      = static_cast<value_type>(0);
         auto sum_x12     = static_cast<value_type>(0);
         for (; first1 != last1; ++first1, ++first2) {
-            sum_x1 += *first1;
-            sum_x2 += *first2;
+            sum_x1 += *first1 * *first1;
+            sum_x2 += *first2 * *first2;
             sum_x12 += *first1 * *first2;
         }
-        return 1 - sum_x2 / (std::sqrt(sum_x1) * std::sqrt(sum_x2));
+        return 1 - sum_x12 / (std::sqrt(sum_x1) * std::sqrt(sum_x2));
     }
 
 }}} // namespace edsp::feature::statistics
-- 
2.43.0


From a21e8898260ffbbf2ed1c9f30e388fcfcd6c4a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:37 +0000
Subject: [PATCH 21/96] fix: decrease: no division by zero at the first element

---
 include/edsp/feature/spectral/spectral_decrease.hpp | 2 +-
 include/edsp/feature/statistics/decrease.hpp        | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/edsp/feature/spectral/spectral_decrease.hpp b/include/edsp/feature/spectral/spectral_decrease.hpp
index 0426ca6..a281d67 100644
--- a/include/edsp/feature/spectral/spectral_decrease.hpp
+++ b/include/edsp/feature/spectral/spectral_decrease.hpp
@@ -38,7 +38,7 @@ namespace edsp { namespace feature { inline namespace spectral {
      * The spectral decrease represents the amount of decreasing of the spectral amplitude. It is defined as:
      * \f[
      *
-     *  d = \frac{1}{ \sum_{n=1}^{N-1} x(n)} \sum_{n=1}^{N-1} \frac{x(n) - x(n-1)}{n}
+     *  d = \frac{1}{ \sum_{n=1}^{N-1} x(n)} \sum_{n=1}^{N-1} \frac{x(n) - x(0)}{n}
      *
      * \f]
      *
diff --git a/include/edsp/feature/statistics/decrease.hpp b/include/edsp/feature/statistics/decrease.hpp
index 6ad28d6..0f194a9 100644
--- a/include/edsp/feature/statistics/decrease.hpp
+++ b/include/edsp/feature/statistics/decrease.hpp
@@ -37,7 +37,7 @@ namespace edsp { namespace feature { inline namespace statistics {
      * The decrease factor represents the amount of decreasing of the signal amplitude. It is defined as:
      * \f[
      *
-     *  d = \frac{1}{ \sum_{n=1}^{N-1} x(n)} \sum_{n=1}^{N-1} \frac{x(n) - x(n-1)}{n}
+     *  d = \frac{1}{ \sum_{n=1}^{N-1} x(n)} \sum_{n=1}^{N-1} \frac{x(n) - x(0)}{n}
      *
      * \f]
      *
@@ -51,7 +51,9 @@ namespace edsp { namespace feature { inline namespace statistics {
         using value_t       = typename std::iterator_traits<ForwardIt>::value_type;
         auto weighted_sum   = static_cast<value_t>(0);
         auto unweighted_sum = static_cast<value_t>(0);
-        for (value_t i = 0, initial = *first; first != last; ++first, ++i) {
+        const value_t initial = *first;
+        value_t i             = 1;
+        for (++first; first != last; ++first, ++i) {
             weighted_sum += ((*first) - initial) / i;
             unweighted_sum += *first;
         }
-- 
2.43.0


From d29c9f7d7f3b536af1a114383b24c8c7728e5997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:37 +0000
Subject: [PATCH 22/96] fix: flux: the second range is normalized by its own
 sum

---
 include/edsp/feature/statistics/flux.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/statistics/flux.hpp b/include/edsp/feature/statistics/flux.hpp
index d9ecc30..be01426 100644
--- a/include/edsp/feature/statistics/flux.hpp
+++ b/include/edsp/feature/statistics/flux.hpp
@@ -49,7 +49,7 @@ namespace edsp { namespace feature { inline namespace statistics {
         using value_type        = meta::value_type_t<InputIt>;
         const auto size         = std::distance(first1, last1);
         const auto current_sum  = std::accumulate(first1, last1, static_cast<value_type>(0));
-        const auto previous_sum = std::accumulate(first1, meta::advance(first2, size), static_cast<value_type>(0));
+        const auto previous_sum = std::accumulate(first2, meta::advance(first2, size), static_cast<value_type>(0));
         auto accumulated        = static_cast<value_type>(0);
         for (; first1 != last1; ++first1, ++first2) {
             accumulated += distance<d>(*first1 / current_sum, *first2 / previous_sum);
-- 
2.43.0


From 7e25bcd09a56d6bff0e02771f803b10770015085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:37 +0000
Subject: [PATCH 23/96] fix: spectral_irregularity: difference of adjoining
 elements

---
 include/edsp/feature/spectral/spectral_irregularity.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/feature/spectral/spectral_irregularity.hpp b/include/edsp/feature/spectral/spectral_irregularity.hpp
index 6063c46..e4a9abd 100644
--- a/include/edsp/feature/spectral/spectral_irregularity.hpp
+++ b/include/edsp/feature/spectral/spectral_irregularity.hpp
@@ -52,7 +52,7 @@ namespace edsp { namespace feature { inline namespace spectral {
         using value_type       = typename std::iterator_traits<ForwardIt>::value_type;
         value_type square_diff = 0, square_ampl = 0;
         for (auto until = (last - 1); first != until; ++first) {
-            const value_type diff = (*first + 1) - (*first);
+            const value_type diff = *(first + 1) - (*first);
             square_diff += diff * diff;
             square_ampl += (*first) * (*first);
         }
-- 
2.43.0


From fb6bb6f25a135b59af5dc1c89523495092dd77cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:25:37 +0000
Subject: [PATCH 24/96] fix: entropy: outcomes of probability zero contribute
 nothing

---
 include/edsp/feature/spectral/spectral_entropy.hpp | 2 +-
 include/edsp/feature/statistics/entropy.hpp        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/feature/spectral/spectral_entropy.hpp b/include/edsp/feature/spectral/spectral_entropy.hpp
index 6505010..4599821 100644
--- a/include/edsp/feature/spectral/spectral_entropy.hpp
+++ b/include/edsp/feature/spectral/spectral_entropy.hpp
@@ -58,7 +58,7 @@ namespace edsp { namespace feature { inline namespace spectral {
         const auto sum       = std::accumulate(first, last, static_cast<input_t>(0));
         const auto predicate = [&](const input_t accumulated, const input_t current) {
             const auto normalized = current / sum;
-            return (accumulated + std::log2(normalized) * normalized);
+            return normalized == 0 ? accumulated : accumulated + std::log2(normalized) * normalized;
         };
         const auto size = static_cast<input_t>(std::distance(first, last));
         const auto acc  = std::accumulate(first, last, static_cast<input_t>(0), predicate);
diff --git a/include/edsp/feature/statistics/entropy.hpp b/include/edsp/feature/statistics/entropy.hpp
index 92bbcb9..6779efa 100644
--- a/include/edsp/feature/statistics/entropy.hpp
+++ b/include/edsp/feature/statistics/entropy.hpp
@@ -51,7 +51,7 @@ namespace edsp { namespace feature { inline namespace statistics {
     constexpr meta::value_type_t<ForwardIt> entropy(ForwardIt first, ForwardIt last) {
         using input_t        = meta::value_type_t<ForwardIt>;
         const auto predicate = [](const input_t accumulated, const input_t current) {
-            return (accumulated + std::log2(current) * current);
+            return current == 0 ? accumulated : accumulated + std::log2(current) * current;
         };
         const auto size = static_cast<input_t>(std::distance(first, last));
         const auto acc  = std::accumulate(first, last, static_cast<input_t>(0), predicate);
-- 
2.43.0


From 9bc2aa84dee96c59eda3ffb107ef0b69f5773279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:30 +0000
Subject: [PATCH 25/96] fix: manhattan distance is never negative

---
 include/edsp/math/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/math/numeric.hpp b/include/edsp/math/numeric.hpp
index f54e39c..639b15c 100644
--- a/include/edsp/math/numeric.hpp
+++ b/include/edsp/math/numeric.hpp
@@ -288,7 +288,7 @@ namespace edsp { inline namespace math {
         struct distance<distances::manhattan> {
             template <typename T>
             constexpr T operator()(T x, T y) noexcept {
-                return x - y;
+                return x < y ? y - x : x - y;
             }
         };
 
-- 
2.43.0


From 3c5f2a98a9f7eb8a2e6d48d850d35d282ebea664 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:30 +0000
Subject: [PATCH 26/96] fix: is_odd: negative odd numbers are odd

---
 include/edsp/math/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/math/numeric.hpp b/include/edsp/math/numeric.hpp
index 639b15c..814bd72 100644
--- a/include/edsp/math/numeric.hpp
+++ b/include/edsp/math/numeric.hpp
@@ -47,7 +47,7 @@ namespace edsp { inline namespace math {
      */
     template <typename T>
     constexpr bool is_odd(T x) {
-        return (x % 2) == 1;
+        return (x % 2) != 0;
     }
 
     /**
-- 
2.43.0


From 525f709ecdbf66d608c8f83fa0ea421dd3d04199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:30 +0000
Subject: [PATCH 27/96] fix: is_prime: primes greater than three are prime

---
 include/edsp/math/numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/math/numeric.hpp b/include/edsp/math/numeric.hpp
index 814bd72..81a9f50 100644
--- a/include/edsp/math/numeric.hpp
+++ b/include/edsp/math/numeric.hpp
@@ -143,7 +143,7 @@ namespace edsp { inline namespace math {
                 return 0;
             r += 6;
         }
-        return false;
+        return true;
     }
 
     /**
-- 
2.43.0


From 7b71961624e22a0607817b815e686aa073b8122d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:30:30 +0000
Subject: [PATCH 28/96] fix: is_power_two, next_power_two: the whole range of
 64-bit integers

---
 include/edsp/math/numeric.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/edsp/math/numeric.hpp b/include/edsp/math/numeric.hpp
index 81a9f50..93e0f8e 100644
--- a/include/edsp/math/numeric.hpp
+++ b/include/edsp/math/numeric.hpp
@@ -67,8 +67,8 @@ namespace edsp { inline namespace math {
      */
     template <typename T>
     constexpr bool is_power_two(T x) {
-        const auto tmp = static_cast<std::int32_t>(x);
-        return tmp != 0 && !(tmp & (tmp - 1));
+        const auto tmp = static_cast<std::int64_t>(x);
+        return tmp > 0 && !(tmp & (tmp - 1));
     }
 
     /**
@@ -168,13 +168,14 @@ namespace edsp { inline namespace math {
         } else if (is_power_two(x)) {
             return x;
         } else {
-            auto _x = static_cast<int32_t>(x);
+            auto _x = static_cast<std::int64_t>(x);
             --_x;
             _x |= _x >> 1;
             _x |= _x >> 2;
             _x |= _x >> 4;
             _x |= _x >> 8;
             _x |= _x >> 16;
+            _x |= _x >> 32;
             return static_cast<T>(_x + 1);
         }
     }
-- 
2.43.0


From 781e4e15d29eb5c1b37993798e33d3e1ffde5bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:35 +0000
Subject: [PATCH 29/96] fix: derivative can be called

---
 include/edsp/algorithm/derivative.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/algorithm/derivative.hpp b/include/edsp/algorithm/derivative.hpp
index fd394f3..71025cf 100644
--- a/include/edsp/algorithm/derivative.hpp
+++ b/include/edsp/algorithm/derivative.hpp
@@ -42,7 +42,7 @@ namespace edsp { inline namespace algorithm {
          * @param last Forward iterator defining the end of the range to examine.
          * @param d_first Output iterator defining the beginning of the destination range.
          */
-    template <typename InputItr, typename OutputIt, typename Numeric>
+    template <typename InputItr, typename OutputIt>
     constexpr void derivative(InputItr first, InputItr last, OutputIt d_first) {
         std::adjacent_difference(first, last, d_first);
     }
-- 
2.43.0


From 1e82ce2194b8eac3575daa64ddee3eea36cba367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:35 +0000
Subject: [PATCH 30/96] fix: silence can be called

---
 include/edsp/algorithm/silence.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/algorithm/silence.hpp b/include/edsp/algorithm/silence.hpp
index dfccec9..41523db 100644
--- a/include/edsp/algorithm/silence.hpp
+++ b/include/edsp/algorithm/silence.hpp
@@ -36,7 +36,7 @@ namespace edsp { inline namespace algorithm {
      * @param last Input iterator defining the ending of the input range.
      * @param threshold Threshold .
      */
-    template <typename InputIt, typename OutputIt, typename Numeric>
+    template <typename InputIt, typename Numeric>
     constexpr bool silence(InputIt first, InputIt last, Numeric threshold) {
         return feature::temporal::power(first, last) < threshold;
     }
-- 
2.43.0


From 84bd02de998603867ca8b86bd9a6098d0f320fb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:32:35 +0000
Subject: [PATCH 31/96] fix: equal compares ranges of different types

---
 include/edsp/algorithm/equal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/algorithm/equal.hpp b/include/edsp/algorithm/equal.hpp
index 6369b46..e4cd893 100644
--- a/include/edsp/algorithm/equal.hpp
+++ b/include/edsp/algorithm/equal.hpp
@@ -37,7 +37,7 @@ namespace edsp { inline namespace algorithm {
      * @returns If the elements in the two ranges are equal, returns true. Otherwise returns false.
      */
     template <typename ForwardIt1, typename ForwardIt2, typename BinaryPredicate>
-    constexpr bool equal(ForwardIt1 first1, ForwardIt2 last1, ForwardIt2 first2, ForwardIt2 last2, BinaryPredicate p) {
+    constexpr bool equal(ForwardIt1 first1, ForwardIt1 last1, ForwardIt2 first2, ForwardIt2 last2, BinaryPredicate p) {
         return std::equal(first1, last1, first2, last2, p);
     }
 
@@ -51,7 +51,7 @@ namespace edsp { inline namespace algorithm {
      * @returns If the elements in the two ranges are equal, returns true. Otherwise returns false.
      */
     template <typename ForwardIt1, typename ForwardIt2>
-    constexpr bool equal(ForwardIt1 first1, ForwardIt2 last1, ForwardIt2 first2, ForwardIt2 last2) {
+    constexpr bool equal(ForwardIt1 first1, ForwardIt1 last1, ForwardIt2 first2, ForwardIt2 last2) {
         return std::equal(first1, last1, first2, last2);
     }
 
-- 
2.43.0


From cb2668cce83e3ae73b79800f6bae58b72b85da31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:23 +0000
Subject: [PATCH 32/96] fix: peak2peak: difference between the maximum and the
 minimum

---
 include/edsp/converter/peak2peak.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/converter/peak2peak.hpp b/include/edsp/converter/peak2peak.hpp
index 25b35b0..9f09569 100644
--- a/include/edsp/converter/peak2peak.hpp
+++ b/include/edsp/converter/peak2peak.hpp
@@ -36,7 +36,7 @@ namespace edsp { inline namespace converter {
     template <typename ForwardIt>
     constexpr auto peak2peak(ForwardIt first, ForwardIt last) {
         const auto pair = std::minmax_element(first, last);
-        return std::abs(*pair.second) - std::abs(*pair.first);
+        return *pair.second - *pair.first;
     }
 
 }} // namespace edsp::converter
-- 
2.43.0


From 4a8790bb2d699f4ec137945ef7049096d07bed32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:33:23 +0000
Subject: [PATCH 33/96] fix: audspace can be called

---
 include/edsp/auditory/audspace.hpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/edsp/auditory/audspace.hpp b/include/edsp/auditory/audspace.hpp
index 82397a9..f1bfd95 100644
--- a/include/edsp/auditory/audspace.hpp
+++ b/include/edsp/auditory/audspace.hpp
@@ -27,6 +27,7 @@
 #include <edsp/auditory/melspace.hpp>
 #include <edsp/auditory/erbspace.hpp>
 #include <edsp/auditory/centspace.hpp>
+#include <edsp/meta/advance.hpp>
 
 // TODO: take a look into http://www.ee.ic.ac.uk/hp/staff/dmb/voicebox/voicebox.html
 namespace edsp { namespace auditory {
@@ -53,18 +54,19 @@ namespace edsp { namespace auditory {
      */
     template <typename OutputIt, typename Numeric, typename Integer>
     constexpr void audspace(OutputIt d_first, Numeric min, Numeric max, Integer N, auditory_scale scale) {
+        const auto last = meta::advance(d_first, N);
         switch (scale) {
             case auditory_scale::mel:
-                melspace(d_first, min, max, N);
+                melspace(d_first, last, min, max);
                 break;
             case auditory_scale::erb:
-                erbspace(d_first, min, max, N);
+                erbspace(d_first, last, min, max);
                 break;
             case auditory_scale::bark:
-                barkspace(d_first, min, max, N);
+                barkspace(d_first, last, min, max);
                 break;
             case auditory_scale::cent:
-                centspace(d_first, min, max, N);
+                centspace(d_first, last, min, max);
                 break;
         }
     }
-- 
2.43.0


From 76b89edb92b458d4894861b2ce127ac603e7ec12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:17 +0000
Subject: [PATCH 34/96] fix: triangular window: same definition for every odd
 length

---
 include/edsp/windowing/triangular.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/windowing/triangular.hpp b/include/edsp/windowing/triangular.hpp
index 415b0af..73d0f79 100644
--- a/include/edsp/windowing/triangular.hpp
+++ b/include/edsp/windowing/triangular.hpp
@@ -45,7 +45,7 @@ namespace edsp { namespace windowing {
         using value_type     = meta::value_type_t<OutputIt>;
         using size_type      = meta::diff_type_t<OutputIt>;
         const auto size      = static_cast<size_type>(std::distance(first, last));
-        const value_type rem = size + std::remainder(size, 2);
+        const value_type rem = size + size % 2;
         value_type initial   = -(size - 1);
         for (size_type i = 0; i < size; ++i, ++first) {
             *first = 1 - std::abs(initial / rem);
-- 
2.43.0


From 541f96fd70c07966b96b022046215ee5d4d31406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:17 +0000
Subject: [PATCH 35/96] fix: welch window: symmetric for even lengths

---
 include/edsp/windowing/welch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/windowing/welch.hpp b/include/edsp/windowing/welch.hpp
index bbc3461..c7d5e14 100644
--- a/include/edsp/windowing/welch.hpp
+++ b/include/edsp/windowing/welch.hpp
@@ -45,7 +45,7 @@ namespace edsp { namespace windowing {
         using value_type   = meta::value_type_t<OutputIt>;
         using size_type    = meta::diff_type_t<OutputIt>;
         const auto size    = static_cast<size_type>(std::distance(first, last));
-        const value_type L = size / 2;
+        const value_type L = static_cast<value_type>(size - 1) / 2;
         for (size_type i = 0; i < size; ++i, ++first) {
             *first = 1 - math::square(static_cast<value_type>(i - L) / L);
         }
-- 
2.43.0


From 6340c6eec5cf65163c8b46b62eaa1b08cf54bfd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:36:17 +0000
Subject: [PATCH 36/96] fix: windows of one sample are one instead of not a
 number

---
 include/edsp/windowing/bartlett.hpp         | 4 ++++
 include/edsp/windowing/blackman.hpp         | 4 ++++
 include/edsp/windowing/blackman_harris.hpp  | 4 ++++
 include/edsp/windowing/blackman_nuttall.hpp | 4 ++++
 include/edsp/windowing/flattop.hpp          | 4 ++++
 include/edsp/windowing/hamming.hpp          | 4 ++++
 include/edsp/windowing/hanning.hpp          | 4 ++++
 include/edsp/windowing/welch.hpp            | 4 ++++
 8 files changed, 32 insertions(+)

diff --git a/include/edsp/windowing/bartlett.hpp b/include/edsp/windowing/bartlett.hpp
index d396efa..9ac15d9 100644
--- a/include/edsp/windowing/bartlett.hpp
+++ b/include/edsp/windowing/bartlett.hpp
@@ -37,6 +37,10 @@ namespace edsp { namespace windowing {
         using value_type  = meta::value_type_t<OutputIt>;
         using size_type   = meta::diff_type_t<OutputIt>;
         const auto size   = static_cast<size_type>(std::distance(first, last));
+        if (size == 1) {
+            *first = static_cast<value_type>(1);
+            return;
+        }
         const auto middle = math::is_even(size) ? size / 2 : (size + 1) / 2;
         const auto factor = math::inv(static_cast<value_type>(size - 1));
         for (size_type i = 0; i < middle; ++i, ++first) {
diff --git a/include/edsp/windowing/blackman.hpp b/include/edsp/windowing/blackman.hpp
index 24f8abb..81759ad 100644
--- a/include/edsp/windowing/blackman.hpp
+++ b/include/edsp/windowing/blackman.hpp
@@ -51,6 +51,10 @@ namespace edsp { namespace windowing {
         constexpr auto a1 = static_cast<value_type>(0.50);
         constexpr auto a2 = static_cast<value_type>(0.08);
         const auto size   = static_cast<size_type>(std::distance(first, last));
+        if (size == 1) {
+            *first = static_cast<value_type>(1);
+            return;
+        }
         const auto factor = constants<value_type>::two_pi / static_cast<value_type>(size - 1);
         for (size_type i = 0; i < size; ++i, ++first) {
             const value_type tmp = factor * i;
diff --git a/include/edsp/windowing/blackman_harris.hpp b/include/edsp/windowing/blackman_harris.hpp
index 0731ea7..8fd0764 100644
--- a/include/edsp/windowing/blackman_harris.hpp
+++ b/include/edsp/windowing/blackman_harris.hpp
@@ -51,6 +51,10 @@ namespace edsp { namespace windowing {
         constexpr auto a2 = static_cast<value_type>(0.14128);
         constexpr auto a3 = static_cast<value_type>(0.01168);
         const auto size   = static_cast<size_type>(std::distance(first, last));
+        if (size == 1) {
+            *first = static_cast<value_type>(1);
+            return;
+        }
         const auto factor = math::constants<value_type>::two_pi / static_cast<value_type>(size - 1);
         for (size_type i = 0; i < size; ++i, ++first) {
             const value_type tmp = factor * i;
diff --git a/include/edsp/windowing/blackman_nuttall.hpp b/include/edsp/windowing/blackman_nuttall.hpp
index 21fdab2..31bb038 100644
--- a/include/edsp/windowing/blackman_nuttall.hpp
+++ b/include/edsp/windowing/blackman_nuttall.hpp
@@ -50,6 +50,10 @@ namespace edsp { namespace windowing {
         constexpr auto a2 = static_cast<value_type>(0.1365995);
         constexpr auto a3 = static_cast<value_type>(0.0106411);
         const auto size   = static_cast<size_type>(std::distance(first, last));
+        if (size == 1) {
+            *first = static_cast<value_type>(1);
+            return;
+        }
         const auto factor = constants<value_type>::two_pi / static_cast<value_type>(size - 1);
         for (size_type i = 0; i < size; ++i, ++first) {
             const value_type tmp = factor * i;
diff --git a/include/edsp/windowing/flattop.hpp b/include/edsp/windowing/flattop.hpp
index b773673..5fcbecb 100644
--- a/include/edsp/windowing/flattop.hpp
+++ b/include/edsp/windowing/flattop.hpp
@@ -52,6 +52,10 @@ namespace edsp { namespace windowing {
         constexpr auto a3 = static_cast<value_type>(0.083578947);
         constexpr auto a4 = static_cast<value_type>(0.006947368);
         const auto size   = static_cast<size_type>(std::distance(first, last));
+        if (size == 1) {
+            *first = static_cast<value_type>(1);
+            return;
+        }
         const auto factor = constants<value_type>::two_pi / static_cast<value_type>(size - 1);
         for (size_type i = 0; i < size; ++i, ++first) {
             const value_type tmp = factor * i;
diff --git a/include/edsp/windowing/hamming.hpp b/include/edsp/windowing/hamming.hpp
index f17fde4..d741022 100644
--- a/include/edsp/windowing/hamming.hpp
+++ b/include/edsp/windowing/hamming.hpp
@@ -50,6 +50,10 @@ namespace edsp { namespace windowing {
         constexpr auto a0 = static_cast<value_type>(0.54);
         constexpr auto a1 = static_cast<value_type>(0.46);
         const auto size   = static_cast<size_type>(std::distance(first, last));
+        if (size == 1) {
+            *first = static_cast<value_type>(1);
+            return;
+        }
         const auto factor = constants<value_type>::two_pi / static_cast<value_type>(size - 1);
         for (size_type i = 0; i < size; ++i, ++first) {
             const value_type tmp = factor * i;
diff --git a/include/edsp/windowing/hanning.hpp b/include/edsp/windowing/hanning.hpp
index 82c3fa1..5e361f3 100644
--- a/include/edsp/windowing/hanning.hpp
+++ b/include/edsp/windowing/hanning.hpp
@@ -49,6 +49,10 @@ namespace edsp { namespace windowing {
         constexpr auto a0 = static_cast<value_type>(0.5);
         constexpr auto a1 = static_cast<value_type>(0.5);
         const auto size   = static_cast<size_type>(std::distance(first, last));
+        if (size == 1) {
+            *first = static_cast<value_type>(1);
+            return;
+        }
         const auto factor = constants<value_type>::two_pi / static_cast<value_type>(size - 1);
         for (size_type i = 0; i < size; ++i, ++first) {
             const value_type tmp = factor * i;
diff --git a/include/edsp/windowing/welch.hpp b/include/edsp/windowing/welch.hpp
index c7d5e14..8b478f2 100644
--- a/include/edsp/windowing/welch.hpp
+++ b/include/edsp/windowing/welch.hpp
@@ -45,6 +45,10 @@ namespace edsp { namespace windowing {
         using value_type   = meta::value_type_t<OutputIt>;
         using size_type    = meta::diff_type_t<OutputIt>;
         const auto size    = static_cast<size_type>(std::distance(first, last));
+        if (size == 1) {
+            *first = static_cast<value_type>(1);
+            return;
+        }
         const value_type L = static_cast<value_type>(size - 1) / 2;
         for (size_type i = 0; i < size; ++i, ++first) {
             *first = 1 - math::square(static_cast<value_type>(i - L) / L);
-- 
2.43.0


From ea7b50648c1d7b316202fa3da318a7577ce2f1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:50 +0000
Subject: [PATCH 37/96] fix: decoder, encoder: a closed file stays closed

---
 include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp | 5 +++--
 include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp | 1 +
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
index 328cb8f..b2a1b0f 100644
--- a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
+++ b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
@@ -105,6 +105,7 @@ namespace edsp { namespace io {
             }
 
             sf_close(file_);
+            file_ = nullptr;
         }
 
         const edsp::string_view& error() const {
@@ -128,11 +129,11 @@ namespace edsp { namespace io {
         }
 
         index_type seek(libsndfile_decoder::index_type position) noexcept {
-            return sf_seek(file_, position, SEEK_SET);
+            return is_open() ? sf_seek(file_, position, SEEK_SET) : -1;
         }
 
         index_type current() const noexcept {
-            return sf_seek(file_, 0, SEEK_CUR);
+            return is_open() ? sf_seek(file_, 0, SEEK_CUR) : -1;
         }
 
         bool seekable() const noexcept {
diff --git a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
index c84c887..c0c9cbc 100644
--- a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
+++ b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
@@ -121,6 +121,7 @@ namespace edsp { namespace io {
             }
 
             sf_close(file_);
+            file_ = nullptr;
         }
 
         const edsp::string_view& error() const {
-- 
2.43.0


From 98101611fcd3449975ba9230776f46bb1ed58970 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:50 +0000
Subject: [PATCH 38/96] fix: decoder: read whole frames for any number of
 channels

---
 .../edsp/io/internal/decoder/libsndfile_decoder_impl.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
index b2a1b0f..d4e8104 100644
--- a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
+++ b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
@@ -145,11 +145,18 @@ namespace edsp { namespace io {
             using value_type = meta::value_type_t<OutputIt>;
             static_assert(std::is_same<value_type, underlying_t>::value, "Expecting iterator of the same type");
 
+            const auto frame_size = channels();
+            if (!is_open() || frame_size > N) {
+                return 0;
+            }
+
+            const index_type block  = N - N % frame_size;
             index_type total        = std::distance(first, last);
+            total                  -= total % frame_size;
             index_type remaining    = total;
             index_type samples_read = 0;
             do {
-                const auto counter = (remaining > N) ? N : remaining;
+                const auto counter = (remaining > block) ? block : remaining;
                 samples_read       = internal::reader<T>{}.read(file_, meta::data(buffer_), counter);
                 remaining -= samples_read;
                 first = std::copy(std::cbegin(buffer_), std::cbegin(buffer_) + samples_read, first);
-- 
2.43.0


From 364ce56946bee101f8a09b1856005b10d24fa798 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:41:25 +0000
Subject: [PATCH 39/96] fix: decoder, encoder, resampler: not copyable, they
 own their handle

---
 bindings/python/src/io.cpp                                  | 6 +++---
 .../edsp/io/internal/decoder/libsndfile_decoder_impl.hpp    | 3 +++
 .../edsp/io/internal/encoder/libsndfile_encoder_impl.hpp    | 3 +++
 include/edsp/io/internal/resampler/libsamplerate_impl.hpp   | 3 +++
 4 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/bindings/python/src/io.cpp b/bindings/python/src/io.cpp
index 1199587..88bf99a 100644
--- a/bindings/python/src/io.cpp
+++ b/bindings/python/src/io.cpp
@@ -93,7 +93,7 @@ void add_io_package() {
         .def("artist", &edsp::io::metadata::artist)
         .def("track", &edsp::io::metadata::track);
 
-    bp::class_<encoder>("Encoder", bp::init<std::size_t, std::size_t>())
+    bp::class_<encoder, boost::noncopyable>("Encoder", bp::init<std::size_t, std::size_t>())
         .def("open", &encoder::open)
         .def("is_open", &encoder::is_open)
         .def("close", &encoder::close)
@@ -101,7 +101,7 @@ void add_io_package() {
         .def("samplerate", &encoder::sample_rate)
         .def("write", encoder_wrapper);
 
-    bp::class_<decoder>("Decoder", bp::init<>())
+    bp::class_<decoder, boost::noncopyable>("Decoder", bp::init<>())
         .def("open", &decoder::open)
         .def("is_open", &decoder::is_open)
         .def("close", &decoder::close)
@@ -119,7 +119,7 @@ void add_io_package() {
         .value("Fastest", edsp::io::resample_quality::sinc_fastest)
         .value("ZeroOrderHold", edsp::io::resample_quality::zero_order_hold);
 
-    bp::class_<resampler>("Resampler", bp::init<std::size_t, edsp::io::resample_quality, real_t>())
+    bp::class_<resampler, boost::noncopyable>("Resampler", bp::init<std::size_t, edsp::io::resample_quality, real_t>())
         .def("process", resampler_process_wrapper)
         .def("error_string", resampler_error_string_wrapper)
         .def("quality", &resampler::quality)
diff --git a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
index d4e8104..203db82 100644
--- a/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
+++ b/include/edsp/io/internal/decoder/libsndfile_decoder_impl.hpp
@@ -81,6 +81,9 @@ namespace edsp { namespace io {
         using value_type = T;
 
         libsndfile_decoder() = default;
+        libsndfile_decoder(const libsndfile_decoder&)            = delete;
+        libsndfile_decoder& operator=(const libsndfile_decoder&) = delete;
+
         ~libsndfile_decoder() {
             close();
         }
diff --git a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
index c0c9cbc..24e3087 100644
--- a/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
+++ b/include/edsp/io/internal/encoder/libsndfile_encoder_impl.hpp
@@ -97,6 +97,9 @@ namespace edsp { namespace io {
             info_.format     = SF_FORMAT_WAV | internal::writer<T>::FORMAT;
         }
 
+        libsndfile_encoder(const libsndfile_encoder&)            = delete;
+        libsndfile_encoder& operator=(const libsndfile_encoder&) = delete;
+
         ~libsndfile_encoder() {
             close();
         }
diff --git a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
index 0ef7745..1850841 100644
--- a/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
+++ b/include/edsp/io/internal/resampler/libsamplerate_impl.hpp
@@ -45,6 +45,9 @@ namespace edsp { namespace io {
             report_error(__PRETTY_FUNCTION__);
         }
 
+        libsamplerate_impl(const libsamplerate_impl&)            = delete;
+        libsamplerate_impl& operator=(const libsamplerate_impl&) = delete;
+
         ~libsamplerate_impl() {
             src_delete(state_);
         }
-- 
2.43.0


From ff79c968ed9e60c650dd26ad16e52368ca4b3f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:55 +0000
Subject: [PATCH 40/96] fix: library_info: the major version is the major
 version

---
 include/edsp/core/library_info.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/core/library_info.hpp b/include/edsp/core/library_info.hpp
index dbea03a..92a95ee 100644
--- a/include/edsp/core/library_info.hpp
+++ b/include/edsp/core/library_info.hpp
@@ -79,7 +79,7 @@ namespace edsp { inline namespace core {
         }
 
         static constexpr std::int32_t major_version() noexcept {
-            return E_VERSION_MINOR;
+            return E_VERSION_MAJOR;
         }
 
         static constexpr std::int32_t patch_version() noexcept {
-- 
2.43.0


From 79eedaad220d5e95d239ecc5c0b1ea41bd453607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:55 +0000
Subject: [PATCH 41/96] fix: library_info: report the transform library in use

---
 include/edsp/core/library_info.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/core/library_info.hpp b/include/edsp/core/library_info.hpp
index 92a95ee..a51d4d1 100644
--- a/include/edsp/core/library_info.hpp
+++ b/include/edsp/core/library_info.hpp
@@ -102,9 +102,9 @@ namespace edsp { inline namespace core {
 #if defined(USE_LIBFFTW)
             return fft_lib::fftw;
 #elif defined(USE_LIBPFFFT)
-            return fft_lib::fftw;
+            return fft_lib::pffft;
 #elif defined(USE_LIBACCELERATE)
-            return fft_lib::fftw;
+            return fft_lib::accelerate;
 #else
             return fft_lib::unknown;
 #endif
-- 
2.43.0


From ebb1706a1a079c7479a0a1980046a1dfebab9ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:55 +0000
Subject: [PATCH 42/96] fix: C bindings: get_build_date returns the date

---
 bindings/c/src/core.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/c/src/core.c b/bindings/c/src/core.c
index a9c6dcc..008c021 100644
--- a/bindings/c/src/core.c
+++ b/bindings/c/src/core.c
@@ -43,7 +43,7 @@ const char *get_version() {
 }
 
 const char *get_build_date() {
-    return edsp::library_info::build_time();
+    return edsp::library_info::build_date();
 }
 
 const char *get_build_time() {
-- 
2.43.0


From 3b1b7696e8f58a73f4703cc8efef958f57b454e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:55 +0000
Subject: [PATCH 43/96] fix: system_env: names and values end where their views
 end

---
 include/edsp/core/system.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/include/edsp/core/system.hpp b/include/edsp/core/system.hpp
index 05b9a14..67a2a7b 100644
--- a/include/edsp/core/system.hpp
+++ b/include/edsp/core/system.hpp
@@ -30,6 +30,7 @@
 #include <edsp/meta/is_null.hpp>
 #include <edsp/meta/empty.hpp>
 #include <mutex>
+#include <string>
 
 namespace edsp { inline namespace core {
 
@@ -184,7 +185,7 @@ namespace edsp { inline namespace core {
         static edsp::expected<edsp::string_view, error>
             get_env(const edsp::string_view& variable_name) noexcept {
             std::lock_guard<std::mutex> lock(mutex());
-            const char* env_p = std::getenv(variable_name.data());
+            const char* env_p = std::getenv(std::string(variable_name.data(), variable_name.size()).c_str());
             if (meta::empty(variable_name)) {
                 return edsp::make_unexpected(error::empty);
             } else {
@@ -209,7 +210,7 @@ namespace edsp { inline namespace core {
             if (meta::empty(variable_name)) {
                 return error::empty;
             } else {
-                const auto result = setenv(meta::data(variable_name), meta::data(variable_value), overwrite);
+                const auto result = setenv(std::string(variable_name.data(), variable_name.size()).c_str(), std::string(variable_value.data(), variable_value.size()).c_str(), overwrite);
                 return static_cast<error>(result);
             }
         }
@@ -221,7 +222,7 @@ namespace edsp { inline namespace core {
         */
         static bool exist(const edsp::string_view& variable_name) noexcept {
             std::lock_guard<std::mutex> lock(mutex());
-            return !meta::is_null(std::getenv(meta::data(variable_name)));
+            return !meta::is_null(std::getenv(std::string(variable_name.data(), variable_name.size()).c_str()));
         }
 
     private:
-- 
2.43.0


From 3119a80dbdb10110ac1d532302cff9c579b5c1ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:55 +0000
Subject: [PATCH 44/96] fix: system_env: set_env reports why it failed

---
 include/edsp/core/system.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/edsp/core/system.hpp b/include/edsp/core/system.hpp
index 67a2a7b..7c16bf9 100644
--- a/include/edsp/core/system.hpp
+++ b/include/edsp/core/system.hpp
@@ -29,6 +29,8 @@
 #include <edsp/meta/expects.hpp>
 #include <edsp/meta/is_null.hpp>
 #include <edsp/meta/empty.hpp>
+#include <cerrno>
+#include <cstdlib>
 #include <mutex>
 #include <string>
 
@@ -211,7 +213,7 @@ namespace edsp { inline namespace core {
                 return error::empty;
             } else {
                 const auto result = setenv(std::string(variable_name.data(), variable_name.size()).c_str(), std::string(variable_value.data(), variable_value.size()).c_str(), overwrite);
-                return static_cast<error>(result);
+                return result == 0 ? error::no_error : static_cast<error>(errno);
             }
         }
 
-- 
2.43.0


From a1de3a073f88a36f424bd0dacce1d49b7e9e4b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:55 +0000
Subject: [PATCH 45/96] fix: system.hpp includes what it uses

---
 include/edsp/core/system.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/edsp/core/system.hpp b/include/edsp/core/system.hpp
index 7c16bf9..16119af 100644
--- a/include/edsp/core/system.hpp
+++ b/include/edsp/core/system.hpp
@@ -24,6 +24,7 @@
 #define EDSP_SYSTEM_HPP
 
 #include <edsp/core/internal/config.hpp>
+#include <edsp/core/logger.hpp>
 #include <edsp/types/string_view.hpp>
 #include <edsp/types/expected.hpp>
 #include <edsp/meta/expects.hpp>
-- 
2.43.0


From 90c8f82ec429013a8b9c26030247dc77d327edb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:55 +0000
Subject: [PATCH 46/96] fix: Python bindings: get_environment of a missing
 variable reports the error

---
 bindings/python/src/core.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/python/src/core.cpp b/bindings/python/src/core.cpp
index 18de363..879b84d 100644
--- a/bindings/python/src/core.cpp
+++ b/bindings/python/src/core.cpp
@@ -27,7 +27,7 @@
 bp::tuple get_environment_python(const char* tag) {
     int error = 0;
     const char* data = get_environment(tag, &error);
-    return bp::make_tuple(std::string(data), error);
+    return bp::make_tuple(std::string(data ? data : ""), error);
 }
 
 void add_core_package() {
-- 
2.43.0


From 041fec7aa7908dc0c354d4afba3c1c606bb42fa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:55 +0000
Subject: [PATCH 47/96] fix: logger: tab and endl insert their character

---
 include/edsp/core/logger.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/edsp/core/logger.hpp b/include/edsp/core/logger.hpp
index 0f52df8..cf6e00e 100644
--- a/include/edsp/core/logger.hpp
+++ b/include/edsp/core/logger.hpp
@@ -224,11 +224,13 @@ namespace edsp { inline namespace core {
     inline namespace internal {
         struct logger_impl {
             inline static logger& tab(logger& stream) {
-                return stream << '\t';
+                stream.msg_ << '\t';
+                return stream;
             }
 
             inline static logger& endl(logger& stream) {
-                return stream << '\n';
+                stream.msg_ << '\n';
+                return stream;
             }
 
             inline static logger& red(logger& stream) {
-- 
2.43.0


From 320d36c7cdcc4041ffea95d66318cc379dc0abed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:55 +0000
Subject: [PATCH 48/96] fix: logger: the whole text and nothing but the text is
 logged

---
 include/edsp/core/logger.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/core/logger.hpp b/include/edsp/core/logger.hpp
index cf6e00e..f6a954e 100644
--- a/include/edsp/core/logger.hpp
+++ b/include/edsp/core/logger.hpp
@@ -485,13 +485,13 @@ namespace edsp { inline namespace core {
 
     template <typename Char>
     logger& logger::operator<<(const std::basic_string<Char>& str) {
-        msg_ << str.data();
+        msg_.write(str.data(), static_cast<std::streamsize>(str.size()));
         return space();
     }
 
     template <typename Char>
     logger& logger::operator<<(const edsp::basic_string_view<Char>& str) {
-        msg_ << str.data();
+        msg_.write(str.data(), static_cast<std::streamsize>(str.size()));
         return space();
     }
 
-- 
2.43.0


From ec5b4e44afbfa4d8c422edb5265664f8c99b422f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:52:55 +0000
Subject: [PATCH 49/96] fix: join, split: any text of any character type

---
 include/edsp/string/join.hpp  | 4 ++--
 include/edsp/string/split.hpp | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/edsp/string/join.hpp b/include/edsp/string/join.hpp
index 476e5c9..ccc0ab1 100644
--- a/include/edsp/string/join.hpp
+++ b/include/edsp/string/join.hpp
@@ -38,7 +38,7 @@ namespace edsp { namespace string {
 
     template <typename InputIt, typename Char>
     inline void join(InputIt first, InputIt last, std::basic_string<Char>& d_str, Char delimiter = ' ') {
-        std::stringstream ss;
+        std::basic_stringstream<Char> ss;
         const auto size = std::distance(first, last);
         if (size) {
             for (auto i = 0; i < size - 1; ++i, ++first) {
@@ -46,7 +46,7 @@ namespace edsp { namespace string {
             }
             ss << *first;
         }
-        d_str = ss.str().c_str();
+        d_str = ss.str();
     }
 
 }} // namespace edsp::string
diff --git a/include/edsp/string/split.hpp b/include/edsp/string/split.hpp
index ccc6577..870e3de 100644
--- a/include/edsp/string/split.hpp
+++ b/include/edsp/string/split.hpp
@@ -36,7 +36,7 @@ namespace edsp { namespace string {
 
     template <typename Char, typename OutputIt>
     inline void split(const std::basic_string<Char>& str, OutputIt d_first, Char character = ' ') {
-        std::stringstream test(str);
+        std::basic_stringstream<Char> test(str);
         std::basic_string<Char> segment;
         while (std::getline(test, segment, character)) {
             if (!segment.empty()) {
-- 
2.43.0


From abff697a8471624bf99de69c47d47d7961856194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:14 +0000
Subject: [PATCH 50/96] fix: logger.hpp includes what it uses

---
 include/edsp/core/logger.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/edsp/core/logger.hpp b/include/edsp/core/logger.hpp
index f6a954e..1633e32 100644
--- a/include/edsp/core/logger.hpp
+++ b/include/edsp/core/logger.hpp
@@ -29,6 +29,8 @@
 #include <type_traits>
 #include <sstream>
 #include <functional>
+#include <cstdint>
+#include <iostream>
 
 namespace edsp { inline namespace core {
 
-- 
2.43.0


From 06a1f65be4796c210ba6b39c3362998104342bcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:14 +0000
Subject: [PATCH 51/96] fix: logger: messages below the minimum level are not
 logged

---
 include/edsp/core/logger.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/edsp/core/logger.hpp b/include/edsp/core/logger.hpp
index 1633e32..0ba67b8 100644
--- a/include/edsp/core/logger.hpp
+++ b/include/edsp/core/logger.hpp
@@ -432,6 +432,10 @@ namespace edsp { inline namespace core {
 
     logger::~logger() {
         edsp::endc(*this);
+        if (type_ < global_level() || type_ == levels::off) {
+            return;
+        }
+
         std::cout << msg_.str();
     }
 
-- 
2.43.0


From 482aea796fef0604a49c43ea23f45c9919433d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:53:14 +0000
Subject: [PATCH 52/96] fix: logger: messages go to the configured file

---
 include/edsp/core/logger.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/edsp/core/logger.hpp b/include/edsp/core/logger.hpp
index 0ba67b8..8e79f17 100644
--- a/include/edsp/core/logger.hpp
+++ b/include/edsp/core/logger.hpp
@@ -30,6 +30,7 @@
 #include <sstream>
 #include <functional>
 #include <cstdint>
+#include <fstream>
 #include <iostream>
 
 namespace edsp { inline namespace core {
@@ -426,9 +427,9 @@ namespace edsp { inline namespace core {
         name_(name),
         file_(file) {}
 
-    logger::logger(const edsp::string_view& name, logger::levels message_type) : logger(name, "", message_type) {}
+    logger::logger(const edsp::string_view& name, logger::levels message_type) : logger(name, global_path(), message_type) {}
 
-    logger::logger(logger::levels message_type) : logger(global_name(), "", message_type) {}
+    logger::logger(logger::levels message_type) : logger(global_name(), global_path(), message_type) {}
 
     logger::~logger() {
         edsp::endc(*this);
@@ -436,7 +437,11 @@ namespace edsp { inline namespace core {
             return;
         }
 
-        std::cout << msg_.str();
+        if (file_.empty() || file_ == "console") {
+            std::cout << msg_.str();
+        } else {
+            std::ofstream(file_, std::ios::app) << msg_.str();
+        }
     }
 
     logger& logger::space() {
-- 
2.43.0


From 414671ab0b7f998fecbed88edc5585515a15423e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:55:52 +0000
Subject: [PATCH 53/96] fix: system_info: recognize Windows, MSVC and ARM

---
 include/edsp/core/system.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/edsp/core/system.hpp b/include/edsp/core/system.hpp
index 16119af..c759411 100644
--- a/include/edsp/core/system.hpp
+++ b/include/edsp/core/system.hpp
@@ -123,7 +123,7 @@ namespace edsp { inline namespace core {
                 return compilers::gcc;
             #elif defined(COMPILER_CLANG)
                 return compilers::clang;
-            #elif defined(COMPILER_MVSC)
+            #elif defined(COMPILER_MSVC)
                 return compilers::mvsc;
             #else
                 return compilers::unknown;
@@ -133,7 +133,7 @@ namespace edsp { inline namespace core {
 
         // clang-format off
         static constexpr systems os() noexcept {
-            #if defined(OS_WINDOWS)
+            #if defined(OS_WIN32)
                return systems::windows;
             #elif defined(OS_LINUX)
                return systems::linux;
@@ -157,7 +157,7 @@ namespace edsp { inline namespace core {
                return processors::x86;
             #elif defined(PROCESSOR_X86_64)
                return processors::x64;
-            #elif defined(PROCESSOR_ARM)
+            #elif defined(PROCESSOR_ARM_32) || defined(PROCESSOR_ARM_64)
                return processors::arm;
             #else
                return processors::unknown;
-- 
2.43.0


From 4533afcbdb7fdda6d571d2161214876ffbc30499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:56:24 +0000
Subject: [PATCH 54/96] fix: system_env: a variable whose value is empty exists

---
 include/edsp/core/system.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/core/system.hpp b/include/edsp/core/system.hpp
index c759411..fce4a21 100644
--- a/include/edsp/core/system.hpp
+++ b/include/edsp/core/system.hpp
@@ -192,7 +192,7 @@ namespace edsp { inline namespace core {
             if (meta::empty(variable_name)) {
                 return edsp::make_unexpected(error::empty);
             } else {
-                if (!meta::is_null(env_p)) {
+                if (env_p != nullptr) {
                     return env_p;
                 } else {
                     return edsp::make_unexpected(error::not_found);
@@ -225,7 +225,7 @@ namespace edsp { inline namespace core {
         */
         static bool exist(const edsp::string_view& variable_name) noexcept {
             std::lock_guard<std::mutex> lock(mutex());
-            return !meta::is_null(std::getenv(std::string(variable_name.data(), variable_name.size()).c_str()));
+            return std::getenv(std::string(variable_name.data(), variable_name.size()).c_str()) != nullptr;
         }
 
     private:
-- 
2.43.0


From 00226b649d24172b39b1bce83e54b4262d3b3bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:36:20 +0000
Subject: [PATCH 55/96] fix: trim, tolower, toupper: characters of any type

---
 include/edsp/string/to_lower.hpp | 13 ++++++++++++-
 include/edsp/string/to_upper.hpp | 12 +++++++++++-
 include/edsp/string/trim.hpp     | 16 ++++++++++++++--
 3 files changed, 37 insertions(+), 4 deletions(-)

diff --git a/include/edsp/string/to_lower.hpp b/include/edsp/string/to_lower.hpp
index 9dc97f7..4639827 100644
--- a/include/edsp/string/to_lower.hpp
+++ b/include/edsp/string/to_lower.hpp
@@ -24,9 +24,20 @@
 
 #include <algorithm>
 #include <cctype>
+#include <cwctype>
 
 namespace edsp { namespace string {
 
+    namespace internal {
+
+        template <typename Char>
+        inline Char to_lower(Char character) {
+            return static_cast<Char>(sizeof(Char) == 1 ? std::tolower(static_cast<unsigned char>(character))
+                                                       : std::towlower(static_cast<std::wint_t>(character)));
+        }
+
+    } // namespace internal
+
     /**
      * @brief Converts the characters in the range [first, last) to lowercase according to the character conversion rules
      * defined by the currently installed C locale and stores the result in another range, beginning at d_first.
@@ -36,7 +47,7 @@ namespace edsp { namespace string {
      */
     template <typename InputIt, typename OutputIt>
     constexpr void tolower(InputIt first, InputIt last, OutputIt d_first) {
-        std::transform(first, last, d_first, [](const auto element) { return std::tolower(element); });
+        std::transform(first, last, d_first, [](const auto element) { return internal::to_lower(element); });
     }
 
 }} // namespace edsp::string
diff --git a/include/edsp/string/to_upper.hpp b/include/edsp/string/to_upper.hpp
index 0149fe0..c510027 100644
--- a/include/edsp/string/to_upper.hpp
+++ b/include/edsp/string/to_upper.hpp
@@ -25,9 +25,19 @@
 
 #include <algorithm>
 #include <cctype>
+#include <cwctype>
 
 namespace edsp { namespace string {
 
+    namespace internal {
+
+        template <typename Char>
+        inline Char to_upper(Char character) {
+            return static_cast<Char>(sizeof(Char) == 1 ? std::toupper(static_cast<unsigned char>(character))
+                                                       : std::towupper(static_cast<std::wint_t>(character)));
+        }
+
+    } // namespace internal
 
     /**
      * @brief Converts the characters in the range [first, last) to uppercase according to the character conversion rules
@@ -38,7 +48,7 @@ namespace edsp { namespace string {
      */
     template <typename InputIt, typename OutputIt>
     constexpr void toupper(InputIt first, InputIt last, OutputIt d_first) {
-        std::transform(first, last, d_first, [](const auto element) { return std::toupper(element); });
+        std::transform(first, last, d_first, [](const auto element) { return internal::to_upper(element); });
     }
 
 }} // namespace edsp::string
diff --git a/include/edsp/string/trim.hpp b/include/edsp/string/trim.hpp
index 16fffa9..d3fef5c 100644
--- a/include/edsp/string/trim.hpp
+++ b/include/edsp/string/trim.hpp
@@ -25,9 +25,21 @@
 #include <edsp/meta/iterator.hpp>
 #include <sstream>
 #include <algorithm>
+#include <cctype>
+#include <cwctype>
 
 namespace edsp { namespace string {
 
+    namespace internal {
+
+        template <typename Char>
+        inline bool is_space(Char character) {
+            return sizeof(Char) == 1 ? std::isspace(static_cast<unsigned char>(character)) != 0
+                                     : std::iswspace(static_cast<std::wint_t>(character)) != 0;
+        }
+
+    } // namespace internal
+
     /**
     * @brief Filters the leading whitespace of the input string.
     * @param str Input string.
@@ -36,7 +48,7 @@ namespace edsp { namespace string {
     inline void ltrim(String& str) {
         str.erase(
             std::begin(str), std::find_if(std::begin(str), std::end(str),
-                                [](auto character) { return !std::isspace(character); }));
+                                [](auto character) { return !internal::is_space(character); }));
     }
 
     /**
@@ -47,7 +59,7 @@ namespace edsp { namespace string {
     inline void rtrim(String& str) {
         str.erase(
             std::find_if(std::rbegin(str), std::rend(str),
-                         [](auto character) { return !std::isspace(character); })
+                         [](auto character) { return !internal::is_space(character); })
                 .base(), std::end(str));
     }
 
-- 
2.43.0


From e2e69f2f1a3450051d814a9fcf42cbfbd479647d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:38:10 +0000
Subject: [PATCH 56/96] fix: C bindings: peak_abs is the peak of the magnitudes

---
 bindings/c/src/statistics.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/c/src/statistics.c b/bindings/c/src/statistics.c
index 74f23ef..9e106c7 100644
--- a/bindings/c/src/statistics.c
+++ b/bindings/c/src/statistics.c
@@ -99,7 +99,7 @@ Peak peak(const real_t* data, int size) {
 }
 
 Peak peak_abs(const real_t* data, int size) {
-    const auto peak = edsp::statistics::peak(data, data + size);
+    const auto peak = edsp::statistics::peakabs(data, data + size);
     return Peak{static_cast<int>(peak.first), peak.second};
 }
 
-- 
2.43.0


From e75232108a2102092a9287fcbd9ddae35c173007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:16 +0000
Subject: [PATCH 57/96] fix: Python: sizes that cannot be allocated raise
 instead of ending the process

---
 bindings/python/src/auditory.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/bindings/python/src/auditory.cpp b/bindings/python/src/auditory.cpp
index 323e508..b8e694d 100644
--- a/bindings/python/src/auditory.cpp
+++ b/bindings/python/src/auditory.cpp
@@ -37,7 +37,7 @@ constexpr auto converter_python(Functor&& f, T frequency) noexcept {
 }
 
 template <class Functor, typename T, typename Integer>
-bn::ndarray generate_python(Functor&& f, T min, T max, Integer size) noexcept {
+bn::ndarray generate_python(Functor&& f, T min, T max, Integer size) {
     Py_intptr_t shape[1] = {size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
     auto* data           = reinterpret_cast<real_t*>(result.get_data());
@@ -77,19 +77,19 @@ real_t erb2hertz(real_t frequency) noexcept {
     return converter_python(edsp::auditory::erb2hertz<real_t>, frequency);
 }
 
-bn::ndarray erbspace(real_t min, real_t max, long size) noexcept {
+bn::ndarray erbspace(real_t min, real_t max, long size) {
     return generate_python(edsp::auditory::erbspace<real_t*, real_t>, min, max, size);
 }
 
-bn::ndarray barkspace(real_t min, real_t max, long size) noexcept {
+bn::ndarray barkspace(real_t min, real_t max, long size) {
     return generate_python(edsp::auditory::barkspace<real_t*, real_t>, min, max, size);
 }
 
-bn::ndarray centspace(real_t min, real_t max, long size) noexcept {
+bn::ndarray centspace(real_t min, real_t max, long size) {
     return generate_python(edsp::auditory::centspace<real_t*, real_t>, min, max, size);
 }
 
-bn::ndarray melspace(real_t min, real_t max, long size) noexcept {
+bn::ndarray melspace(real_t min, real_t max, long size) {
     return generate_python(edsp::auditory::melspace<real_t*, real_t>, min, max, size);
 }
 
-- 
2.43.0


From 62f5554a9cc2bd118d8089f6c906c5f8b8a08edd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:16 +0000
Subject: [PATCH 58/96] fix: metadata: files without a tag, and texts in any
 language

---
 .../edsp/io/internal/metadata/libtag_impl.hpp    | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/edsp/io/internal/metadata/libtag_impl.hpp b/include/edsp/io/internal/metadata/libtag_impl.hpp
index efba48d..7ccfc2c 100644
--- a/include/edsp/io/internal/metadata/libtag_impl.hpp
+++ b/include/edsp/io/internal/metadata/libtag_impl.hpp
@@ -32,30 +32,34 @@ namespace edsp { namespace io {
         explicit libtag_metadata(const std::string& file) : ref_(meta::data(file)) {}
 
         std::string title() const {
-            return ref_.tag()->title().to8Bit();
+            return has_tag() ? ref_.tag()->title().to8Bit(true) : std::string();
         }
 
         std::string artist() const {
-            return ref_.tag()->artist().to8Bit();
+            return has_tag() ? ref_.tag()->artist().to8Bit(true) : std::string();
         }
 
         std::string album() const {
-            return ref_.tag()->album().to8Bit();
+            return has_tag() ? ref_.tag()->album().to8Bit(true) : std::string();
         }
 
         std::string genre() const {
-            return ref_.tag()->genre().to8Bit();
+            return has_tag() ? ref_.tag()->genre().to8Bit(true) : std::string();
         }
 
         size_t track() const {
-            return ref_.tag()->track();
+            return has_tag() ? ref_.tag()->track() : 0;
         }
 
         size_t year() const {
-            return ref_.tag()->year();
+            return has_tag() ? ref_.tag()->year() : 0;
         }
 
     private:
+        bool has_tag() const {
+            return !ref_.isNull() && ref_.tag() != nullptr;
+        }
+
         TagLib::FileRef ref_;
     };
 
-- 
2.43.0


From b3a927d3d1b14775d6f028f8d3a77c5675cbe857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:54 +0000
Subject: [PATCH 59/96] fix: Python: arrays of any layout and type

---
 .../include/boost_numpy_dependencies.hpp      | 15 ++++++++++++
 bindings/python/src/algorithm.cpp             | 21 ++++++++++------
 bindings/python/src/converter.cpp             | 15 ++++++++----
 bindings/python/src/feature_spectral.cpp      |  9 ++++---
 bindings/python/src/feature_statistics.cpp    |  9 ++++---
 bindings/python/src/feature_temporal.cpp      |  6 +++--
 bindings/python/src/filter.cpp                |  3 ++-
 bindings/python/src/io.cpp                    |  6 +++--
 bindings/python/src/spectral.cpp              | 24 ++++++++++++-------
 bindings/python/src/statistics.cpp            |  3 ++-
 10 files changed, 79 insertions(+), 32 deletions(-)

diff --git a/bindings/python/include/boost_numpy_dependencies.hpp b/bindings/python/include/boost_numpy_dependencies.hpp
index 0a5bd0c..51a752d 100644
--- a/bindings/python/include/boost_numpy_dependencies.hpp
+++ b/bindings/python/include/boost_numpy_dependencies.hpp
@@ -40,4 +40,19 @@ namespace bp = boost::python;
 namespace bn = boost::python::numpy;
 #endif
 
+#include <stdexcept>
+
+/**
+ * @brief Gives the elements of a one-dimensional array, whatever its layout and type, as a contiguous array of T.
+ * @param input One-dimensional array
+ * @return The array itself if it already is contiguous and of the type T, otherwise a converted copy.
+ */
+template <typename T>
+inline bn::ndarray contiguous(const bn::ndarray& input) {
+    if (input.get_nd() != 1) {
+        throw std::invalid_argument("Expected one-dimensional arrays");
+    }
+    return bn::from_object(input, bn::dtype::get_builtin<T>(), 1, 1, bn::ndarray::CARRAY_RO);
+}
+
 #endif //EDSP_BOOST_NUMPY_DEPENDENCIES_HPP
diff --git a/bindings/python/src/algorithm.cpp b/bindings/python/src/algorithm.cpp
index 9cf43b0..a964102 100644
--- a/bindings/python/src/algorithm.cpp
+++ b/bindings/python/src/algorithm.cpp
@@ -34,7 +34,8 @@ bn::ndarray execute_inplace(Functor&& f, bn::ndarray& input, Args... arg) {
     const auto size      = input.shape(0);
     Py_intptr_t shape[1] = {size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
-    auto in              = reinterpret_cast<real_t*>(input.get_data());
+    const auto array = contiguous<real_t>(input);
+    auto in              = reinterpret_cast<real_t*>(array.get_data());
     auto out             = reinterpret_cast<real_t*>(result.get_data());
     f(in, size, out, arg...);
     return result;
@@ -47,7 +48,8 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
     }
 
     const auto size = input.shape(0);
-    auto in         = reinterpret_cast<real_t*>(input.get_data());
+    const auto array = contiguous<real_t>(input);
+    auto in         = reinterpret_cast<real_t*>(array.get_data());
     return f(in, size, arg...);
 }
 
@@ -127,8 +129,10 @@ bool equal_python(bn::ndarray& first, bn::ndarray& second) {
         return false;
     }
 
-    auto* first_in  = reinterpret_cast<real_t*>(first.get_data());
-    auto* second_in = reinterpret_cast<real_t*>(second.get_data());
+    const auto first_array = contiguous<real_t>(first);
+    auto* first_in  = reinterpret_cast<real_t*>(first_array.get_data());
+    const auto second_array = contiguous<real_t>(second);
+    auto* second_in = reinterpret_cast<real_t*>(second_array.get_data());
     return equal(first_in, size, second_in);
 }
 
@@ -141,8 +145,10 @@ bn::ndarray concatenate_python(bn::ndarray& first, bn::ndarray& second) {
     const auto second_size = second.shape(0);
     Py_intptr_t shape[1]   = {first_size + second_size};
     auto result            = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
-    auto* first_in         = reinterpret_cast<real_t*>(first.get_data());
-    auto* second_in        = reinterpret_cast<real_t*>(second.get_data());
+    const auto first_array = contiguous<real_t>(first);
+    auto* first_in         = reinterpret_cast<real_t*>(first_array.get_data());
+    const auto second_array = contiguous<real_t>(second);
+    auto* second_in        = reinterpret_cast<real_t*>(second_array.get_data());
     auto* result_data      = reinterpret_cast<real_t*>(result.get_data());
 
     array_concatenate(first_in, first_size, second_in, second_size, result_data);
@@ -157,7 +163,8 @@ bn::ndarray padder_python(bn::ndarray& input, long size) {
     const auto input_size = input.shape(0);
     Py_intptr_t shape[1]  = {size};
     auto result           = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
-    auto* in              = reinterpret_cast<real_t*>(input.get_data());
+    const auto array = contiguous<real_t>(input);
+    auto* in              = reinterpret_cast<real_t*>(array.get_data());
     auto* result_data     = reinterpret_cast<real_t*>(result.get_data());
 
     array_padder(in, input_size, result_data, size);
diff --git a/bindings/python/src/converter.cpp b/bindings/python/src/converter.cpp
index 265f9dd..bdfa404 100644
--- a/bindings/python/src/converter.cpp
+++ b/bindings/python/src/converter.cpp
@@ -29,7 +29,8 @@ real_t peak2rms_python(bn::ndarray& input) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
     const auto size = input.shape(0);
-    auto* data      = reinterpret_cast<real_t*>(input.get_data());
+    const auto array = contiguous<real_t>(input);
+    auto* data      = reinterpret_cast<real_t*>(array.get_data());
 
     return peak2rms(data, size);
 }
@@ -39,7 +40,8 @@ real_t peak2peak_python(bn::ndarray& input) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
     const auto size = input.shape(0);
-    auto* data      = reinterpret_cast<real_t*>(input.get_data());
+    const auto array = contiguous<real_t>(input);
+    auto* data      = reinterpret_cast<real_t*>(array.get_data());
 
     return peak2peak(data, size);
 }
@@ -68,8 +70,10 @@ bn::ndarray ri2complex_python(bn::ndarray& real, bn::ndarray& imag) {
     Py_intptr_t shape[1] = {size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<std::complex<real_t>>());
 
-    auto* real_data   = reinterpret_cast<real_t*>(real.get_data());
-    auto* imag_data   = reinterpret_cast<real_t*>(imag.get_data());
+    const auto real_array = contiguous<real_t>(real);
+    const auto imag_array = contiguous<real_t>(imag);
+    auto* real_data   = reinterpret_cast<real_t*>(real_array.get_data());
+    auto* imag_data   = reinterpret_cast<real_t*>(imag_array.get_data());
     auto* result_data = reinterpret_cast<complex_t*>(result.get_data());
     ri2complex(real_data, imag_data, size, result_data);
     return result;
@@ -85,7 +89,8 @@ bp::tuple complex2real_python(bn::ndarray& input) {
     auto real            = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
     auto imag            = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
 
-    auto* complex_data = reinterpret_cast<complex_t*>(input.get_data());
+    const auto array = contiguous<std::complex<real_t>>(input);
+    auto* complex_data = reinterpret_cast<complex_t*>(array.get_data());
     auto* real_data    = reinterpret_cast<real_t*>(real.get_data());
     auto* imag_data    = reinterpret_cast<real_t*>(imag.get_data());
     complex2real(complex_data, size, real_data, imag_data);
diff --git a/bindings/python/src/feature_spectral.cpp b/bindings/python/src/feature_spectral.cpp
index 201a045..baf329b 100644
--- a/bindings/python/src/feature_spectral.cpp
+++ b/bindings/python/src/feature_spectral.cpp
@@ -41,7 +41,8 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
     const auto size = input.shape(0);
-    auto* data      = reinterpret_cast<real_t*>(input.get_data());
+    const auto array = contiguous<real_t>(input);
+    auto* data      = reinterpret_cast<real_t*>(array.get_data());
     return f(data, data + size, arg...);
 }
 
@@ -51,8 +52,10 @@ auto execute(Functor&& f, bn::ndarray& first, bn::ndarray& second) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
     const auto size   = first.shape(0);
-    auto* first_data  = reinterpret_cast<real_t*>(first.get_data());
-    auto* second_data = reinterpret_cast<real_t*>(second.get_data());
+    const auto first_array = contiguous<real_t>(first);
+    auto* first_data  = reinterpret_cast<real_t*>(first_array.get_data());
+    const auto second_array = contiguous<real_t>(second);
+    auto* second_data = reinterpret_cast<real_t*>(second_array.get_data());
     return f(first_data, first_data + size, second_data);
 }
 
diff --git a/bindings/python/src/feature_statistics.cpp b/bindings/python/src/feature_statistics.cpp
index aa7e70b..4702fc9 100644
--- a/bindings/python/src/feature_statistics.cpp
+++ b/bindings/python/src/feature_statistics.cpp
@@ -38,7 +38,8 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
     const auto size = input.shape(0);
-    auto* data      = reinterpret_cast<real_t*>(input.get_data());
+    const auto array = contiguous<real_t>(input);
+    auto* data      = reinterpret_cast<real_t*>(array.get_data());
     return f(data, data + size, arg...);
 }
 
@@ -48,8 +49,10 @@ auto execute_two_inputs(Functor&& f, bn::ndarray& first, bn::ndarray& second) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
     const auto size   = first.shape(0);
-    auto* first_data  = reinterpret_cast<real_t*>(first.get_data());
-    auto* second_data = reinterpret_cast<real_t*>(second.get_data());
+    const auto first_array = contiguous<real_t>(first);
+    auto* first_data  = reinterpret_cast<real_t*>(first_array.get_data());
+    const auto second_array = contiguous<real_t>(second);
+    auto* second_data = reinterpret_cast<real_t*>(second_array.get_data());
     return f(first_data, first_data + size, second_data);
 }
 
diff --git a/bindings/python/src/feature_temporal.cpp b/bindings/python/src/feature_temporal.cpp
index ceedb3c..e7efdc6 100644
--- a/bindings/python/src/feature_temporal.cpp
+++ b/bindings/python/src/feature_temporal.cpp
@@ -38,7 +38,8 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
     }
 
     const auto size = input.shape(0);
-    auto in         = reinterpret_cast<real_t*>(input.get_data());
+    const auto array = contiguous<real_t>(input);
+    auto in         = reinterpret_cast<real_t*>(array.get_data());
     return f(in, in + size, arg...);
 }
 
@@ -53,7 +54,8 @@ bn::ndarray execute_numpy(Functor&& f, bn::ndarray& input, Args... arg) {
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
     auto* data           = reinterpret_cast<real_t*>(result.get_data());
 
-    auto in = reinterpret_cast<real_t*>(input.get_data());
+    const auto array = contiguous<real_t>(input);
+    auto in = reinterpret_cast<real_t*>(array.get_data());
     f(in, in + size, data, arg...);
     return result;
 }
diff --git a/bindings/python/src/filter.cpp b/bindings/python/src/filter.cpp
index 2d813af..ffdc7d9 100644
--- a/bindings/python/src/filter.cpp
+++ b/bindings/python/src/filter.cpp
@@ -30,7 +30,8 @@ auto wrapper_filter(Class& obj, bn::ndarray& input) {
     const auto size      = input.shape(0);
     Py_intptr_t shape[1] = {size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
-    auto data            = reinterpret_cast<real_t*>(input.get_data());
+    const auto array = contiguous<real_t>(input);
+    auto data            = reinterpret_cast<real_t*>(array.get_data());
     auto output          = reinterpret_cast<real_t*>(result.get_data());
     obj.filter(data, data + size, output);
     return result;
diff --git a/bindings/python/src/io.cpp b/bindings/python/src/io.cpp
index 88bf99a..016f144 100644
--- a/bindings/python/src/io.cpp
+++ b/bindings/python/src/io.cpp
@@ -38,7 +38,8 @@ auto encoder_wrapper(encoder& enc, bn::ndarray& input) {
     }
 
     const auto size = input.shape(0);
-    auto in         = reinterpret_cast<real_t*>(input.get_data());
+    const auto array = contiguous<real_t>(input.astype(bn::dtype::get_builtin<real_t>()));
+    auto in         = reinterpret_cast<real_t*>(array.get_data());
     return enc.write(in, in + size);
 }
 
@@ -67,7 +68,8 @@ auto resampler_process_wrapper(resampler& res, bn::ndarray& input) {
     Py_intptr_t shape[1] = {expected_size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
     auto data            = reinterpret_cast<real_t*>(result.get_data());
-    auto in              = reinterpret_cast<real_t*>(input.get_data());
+    const auto array     = contiguous<real_t>(input.astype(bn::dtype::get_builtin<real_t>()));
+    auto in              = reinterpret_cast<real_t*>(array.get_data());
     const auto sizes     = res.process(in, in + size, data);
 
     Py_intptr_t final_shape[2] = {sizes.second, res.channels()};
diff --git a/bindings/python/src/spectral.cpp b/bindings/python/src/spectral.cpp
index 8f3bd56..f65f277 100644
--- a/bindings/python/src/spectral.cpp
+++ b/bindings/python/src/spectral.cpp
@@ -34,8 +34,10 @@ bn::ndarray execute(Functor&& f, bn::ndarray& left, bn::ndarray& right) {
     Py_intptr_t shape[1] = {size};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<real_t>());
 
-    auto* left_data  = reinterpret_cast<real_t*>(left.get_data());
-    auto* right_data = reinterpret_cast<real_t*>(right.get_data());
+    const auto left_array = contiguous<real_t>(left);
+    auto* left_data  = reinterpret_cast<real_t*>(left_array.get_data());
+    const auto right_array = contiguous<real_t>(right);
+    auto* right_data = reinterpret_cast<real_t*>(right_array.get_data());
     auto result_data = reinterpret_cast<real_t*>(result.get_data());
     f(left_data, right_data, size, result_data);
     return result;
@@ -51,7 +53,8 @@ bn::ndarray execute(Functor&& f, bn::ndarray& input) {
     Py_intptr_t shape[1] = {size};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<real_t>());
 
-    auto* input_data = reinterpret_cast<real_t*>(input.get_data());
+    const auto array = contiguous<real_t>(input);
+    auto* input_data = reinterpret_cast<real_t*>(array.get_data());
     auto result_data = reinterpret_cast<real_t*>(result.get_data());
     f(input_data, size, result_data);
     return result;
@@ -67,7 +70,8 @@ bn::ndarray execute_r2r_half(Functor&& f, bn::ndarray& input) {
     Py_intptr_t shape[1] = {get_fft_size(size)};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<real_t>());
 
-    auto* input_data = reinterpret_cast<real_t*>(input.get_data());
+    const auto array = contiguous<real_t>(input);
+    auto* input_data = reinterpret_cast<real_t*>(array.get_data());
     auto result_data = reinterpret_cast<real_t*>(result.get_data());
     f(input_data, size, result_data);
     return result;
@@ -83,7 +87,8 @@ bn::ndarray execute_r2c_full(Functor&& f, bn::ndarray& input) {
     Py_intptr_t shape[1] = {size};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<std::complex<real_t>>());
 
-    auto* input_data = reinterpret_cast<real_t*>(input.get_data());
+    const auto array = contiguous<real_t>(input);
+    auto* input_data = reinterpret_cast<real_t*>(array.get_data());
     auto result_data = reinterpret_cast<complex_t*>(result.get_data());
     f(input_data, size, result_data);
     return result;
@@ -99,7 +104,8 @@ bn::ndarray execute_r2c_half(Functor&& f, bn::ndarray& input) {
     Py_intptr_t shape[1] = {get_fft_size(size)};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<std::complex<real_t>>());
 
-    auto* input_data = reinterpret_cast<real_t*>(input.get_data());
+    const auto array = contiguous<real_t>(input);
+    auto* input_data = reinterpret_cast<real_t*>(array.get_data());
     auto result_data = reinterpret_cast<complex_t*>(result.get_data());
     f(input_data, size, result_data);
     return result;
@@ -115,7 +121,8 @@ bn::ndarray execute_c2r(Functor&& f, bn::ndarray& input) {
     Py_intptr_t shape[1] = {get_ifft_size(size)};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<real_t>());
 
-    auto* input_data = reinterpret_cast<complex_t*>(input.get_data());
+    const auto array = contiguous<std::complex<real_t>>(input);
+    auto* input_data = reinterpret_cast<complex_t*>(array.get_data());
     auto result_data = reinterpret_cast<real_t*>(result.get_data());
     f(input_data, size, result_data);
     return result;
@@ -131,7 +138,8 @@ bn::ndarray execute_c2c(Functor&& f, bn::ndarray& input) {
     Py_intptr_t shape[1] = {size};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<std::complex<real_t>>());
 
-    auto* input_data  = reinterpret_cast<complex_t*>(input.get_data());
+    const auto array = contiguous<std::complex<real_t>>(input);
+    auto* input_data  = reinterpret_cast<complex_t*>(array.get_data());
     auto* result_data = reinterpret_cast<complex_t*>(result.get_data());
     f(input_data, size, result_data);
     return result;
diff --git a/bindings/python/src/statistics.cpp b/bindings/python/src/statistics.cpp
index cf684e0..65c20f1 100644
--- a/bindings/python/src/statistics.cpp
+++ b/bindings/python/src/statistics.cpp
@@ -31,7 +31,8 @@ inline auto execute(Functor&& f, bn::ndarray& input, Arg... arg) {
     }
 
     const auto size = input.shape(0);
-    auto in         = reinterpret_cast<real_t*>(input.get_data());
+    const auto array = contiguous<real_t>(input);
+    auto in         = reinterpret_cast<real_t*>(array.get_data());
     return f(in, size, arg...);
 }
 
-- 
2.43.0


From 363d75887265f12621e416e2e5e04a8f700b38b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:54 +0000
Subject: [PATCH 60/96] fix: Python: real2complex reads its argument

---
 bindings/python/src/converter.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/python/src/converter.cpp b/bindings/python/src/converter.cpp
index bdfa404..dc33bab 100644
--- a/bindings/python/src/converter.cpp
+++ b/bindings/python/src/converter.cpp
@@ -55,7 +55,8 @@ bn::ndarray real2complex_python(bn::ndarray& input) {
     Py_intptr_t shape[1] = {size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<std::complex<real_t>>());
 
-    auto* real        = reinterpret_cast<real_t*>(result.get_data());
+    const auto array  = contiguous<real_t>(input);
+    auto* real        = reinterpret_cast<real_t*>(array.get_data());
     auto* result_data = reinterpret_cast<complex_t*>(result.get_data());
     real2complex(real, size, result_data);
     return result;
-- 
2.43.0


From 294cb7c7ee14e5bd2ae1ab5ea884a195ae938f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:54 +0000
Subject: [PATCH 61/96] fix: Python: two arrays have to be of one dimension and
 the same size

---
 bindings/python/include/boost_numpy_dependencies.hpp | 9 +++++++++
 bindings/python/src/converter.cpp                    | 1 +
 bindings/python/src/feature_spectral.cpp             | 3 ++-
 bindings/python/src/feature_statistics.cpp           | 3 ++-
 bindings/python/src/spectral.cpp                     | 1 +
 5 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/bindings/python/include/boost_numpy_dependencies.hpp b/bindings/python/include/boost_numpy_dependencies.hpp
index 51a752d..4516fed 100644
--- a/bindings/python/include/boost_numpy_dependencies.hpp
+++ b/bindings/python/include/boost_numpy_dependencies.hpp
@@ -55,4 +55,13 @@ inline bn::ndarray contiguous(const bn::ndarray& input) {
     return bn::from_object(input, bn::dtype::get_builtin<T>(), 1, 1, bn::ndarray::CARRAY_RO);
 }
 
+/**
+ * @brief Checks that two one-dimensional arrays have the same size.
+ */
+inline void expect_same_size(const bn::ndarray& first, const bn::ndarray& second) {
+    if (first.shape(0) != second.shape(0)) {
+        throw std::invalid_argument("Expected arrays of the same size");
+    }
+}
+
 #endif //EDSP_BOOST_NUMPY_DEPENDENCIES_HPP
diff --git a/bindings/python/src/converter.cpp b/bindings/python/src/converter.cpp
index dc33bab..ce02772 100644
--- a/bindings/python/src/converter.cpp
+++ b/bindings/python/src/converter.cpp
@@ -67,6 +67,7 @@ bn::ndarray ri2complex_python(bn::ndarray& real, bn::ndarray& imag) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
 
+    expect_same_size(real, imag);
     const auto size      = real.shape(0);
     Py_intptr_t shape[1] = {size};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<std::complex<real_t>>());
diff --git a/bindings/python/src/feature_spectral.cpp b/bindings/python/src/feature_spectral.cpp
index baf329b..34880b2 100644
--- a/bindings/python/src/feature_spectral.cpp
+++ b/bindings/python/src/feature_spectral.cpp
@@ -48,9 +48,10 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
 
 template <class Functor>
 auto execute(Functor&& f, bn::ndarray& first, bn::ndarray& second) {
-    if (first.get_nd() != 1 and second.get_nd() != 1) {
+    if (first.get_nd() != 1 || second.get_nd() != 1) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
+    expect_same_size(first, second);
     const auto size   = first.shape(0);
     const auto first_array = contiguous<real_t>(first);
     auto* first_data  = reinterpret_cast<real_t*>(first_array.get_data());
diff --git a/bindings/python/src/feature_statistics.cpp b/bindings/python/src/feature_statistics.cpp
index 4702fc9..f0e665f 100644
--- a/bindings/python/src/feature_statistics.cpp
+++ b/bindings/python/src/feature_statistics.cpp
@@ -45,9 +45,10 @@ auto execute(Functor&& f, bn::ndarray& input, Args... arg) {
 
 template <class Functor>
 auto execute_two_inputs(Functor&& f, bn::ndarray& first, bn::ndarray& second) {
-    if (first.get_nd() != 1 and second.get_nd() != 1) {
+    if (first.get_nd() != 1 || second.get_nd() != 1) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
+    expect_same_size(first, second);
     const auto size   = first.shape(0);
     const auto first_array = contiguous<real_t>(first);
     auto* first_data  = reinterpret_cast<real_t*>(first_array.get_data());
diff --git a/bindings/python/src/spectral.cpp b/bindings/python/src/spectral.cpp
index f65f277..4acac40 100644
--- a/bindings/python/src/spectral.cpp
+++ b/bindings/python/src/spectral.cpp
@@ -30,6 +30,7 @@ bn::ndarray execute(Functor&& f, bn::ndarray& left, bn::ndarray& right) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
 
+    expect_same_size(left, right);
     const auto size      = left.shape(0);
     Py_intptr_t shape[1] = {size};
     auto result          = bn::zeros(1, shape, bn::dtype::get_builtin<real_t>());
-- 
2.43.0


From 21db62f731ebeca4afeaf5147098d936d048eb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:54 +0000
Subject: [PATCH 62/96] fix: Python: a decoder returns the samples it read

---
 bindings/python/src/io.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/bindings/python/src/io.cpp b/bindings/python/src/io.cpp
index 016f144..4fc6a46 100644
--- a/bindings/python/src/io.cpp
+++ b/bindings/python/src/io.cpp
@@ -44,12 +44,11 @@ auto encoder_wrapper(encoder& enc, bn::ndarray& input) {
 }
 
 auto decoder_wrapper(decoder& dec, unsigned int size) {
-    Py_intptr_t shape[1] = {size};
+    std::vector<real_t> data(size);
+    const auto samples   = dec.read(data.begin(), data.end());
+    Py_intptr_t shape[1] = {static_cast<Py_intptr_t>(samples)};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
-    auto data            = reinterpret_cast<real_t*>(result.get_data());
-    const auto sizes     = dec.read(data, data + size);
-    const auto frames    = sizes / dec.channels();
-    result.reshape(bp::make_tuple(frames, dec.channels()));
+    std::copy(data.begin(), data.begin() + samples, reinterpret_cast<real_t*>(result.get_data()));
     return result;
 }
 
-- 
2.43.0


From d9c59846adbaff16e07ecb8307e138b4653a5178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:39:54 +0000
Subject: [PATCH 63/96] fix: Python: a resampler of several channels has room
 for all of them

---
 bindings/python/src/io.cpp | 26 +++++++++++---------------
 1 file changed, 11 insertions(+), 15 deletions(-)

diff --git a/bindings/python/src/io.cpp b/bindings/python/src/io.cpp
index 4fc6a46..1b2f3b7 100644
--- a/bindings/python/src/io.cpp
+++ b/bindings/python/src/io.cpp
@@ -61,23 +61,19 @@ auto resampler_process_wrapper(resampler& res, bn::ndarray& input) {
         throw std::invalid_argument("Expected one-dimensional arrays");
     }
 
-    const auto size          = input.shape(0);
-    const auto expected_size = static_cast<unsigned int>(size * res.ratio());
+    const auto size   = input.shape(0);
+    const auto ratio  = std::max(static_cast<double>(res.ratio()), 0.0);
+    const auto frames = static_cast<std::size_t>(ratio * (size / res.channels()));
+    std::vector<real_t> data(frames * res.channels());
+    const auto array = contiguous<real_t>(input.astype(bn::dtype::get_builtin<real_t>()));
+    auto in              = reinterpret_cast<real_t*>(array.get_data());
+    const auto sizes     = res.process(in, in + size, data.begin());
 
-    Py_intptr_t shape[1] = {expected_size};
+    const auto samples   = sizes.second * res.channels();
+    Py_intptr_t shape[1] = {samples};
     auto result          = bn::empty(1, shape, bn::dtype::get_builtin<real_t>());
-    auto data            = reinterpret_cast<real_t*>(result.get_data());
-    const auto array     = contiguous<real_t>(input.astype(bn::dtype::get_builtin<real_t>()));
-    auto in              = reinterpret_cast<real_t*>(array.get_data());
-    const auto sizes     = res.process(in, in + size, data);
-
-    Py_intptr_t final_shape[2] = {sizes.second, res.channels()};
-    const auto final_samples   = sizes.second * res.channels();
-    auto final_result          = bn::empty(1, final_shape, bn::dtype::get_builtin<real_t>());
-    auto final_data            = reinterpret_cast<real_t*>(final_result.get_data());
-    std::copy(data, data + final_samples, final_data);
-    final_result.reshape(bp::make_tuple(sizes.second, res.channels()));
-    return bp::make_tuple(final_result, sizes.first);
+    std::copy(data.begin(), data.begin() + samples, reinterpret_cast<real_t*>(result.get_data()));
+    return bp::make_tuple(result, sizes.first);
 }
 
 void add_io_package() {
-- 
2.43.0


From 0d1f14bf258f7a71826146b37df6f09ee780906d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:06 +0000
Subject: [PATCH 64/96] fix: white, brown and pink noise of real numbers

---
 include/edsp/random/noise/white_noise_generator.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/edsp/random/noise/white_noise_generator.hpp b/include/edsp/random/noise/white_noise_generator.hpp
index 02d2cd4..fc43eef 100644
--- a/include/edsp/random/noise/white_noise_generator.hpp
+++ b/include/edsp/random/noise/white_noise_generator.hpp
@@ -24,6 +24,7 @@
 
 #include <random>
 #include <chrono>
+#include <type_traits>
 
 namespace edsp { namespace random {
 
@@ -40,7 +41,7 @@ namespace edsp { namespace random {
          */
         inline white_noise_generator(value_type min, value_type max) :
             generator_(Engine(static_cast<std::size_t>(std::chrono::system_clock::now().time_since_epoch().count()))),
-            distribution_(std::uniform_int_distribution<T>(min, max)) {}
+            distribution_(min, max) {}
 
         /**
         * @brief Generates a random number following the noise distribution.
@@ -51,8 +52,12 @@ namespace edsp { namespace random {
         }
 
     private:
+        using distribution_type =
+            typename std::conditional<std::is_floating_point<T>::value, std::uniform_real_distribution<T>,
+                                      std::uniform_int_distribution<T>>::type;
+
         Engine generator_;
-        std::uniform_int_distribution<T> distribution_;
+        distribution_type distribution_;
     };
 
 }} // namespace edsp::random
-- 
2.43.0


From 89319d6e4deeb7acbf45ca050c700461cdbe5d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:06 +0000
Subject: [PATCH 65/96] fix: brown and pink noise with any engine

---
 include/edsp/random/noise/brown_noise_generator.hpp | 2 +-
 include/edsp/random/noise/pink_noise_generator.hpp  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/random/noise/brown_noise_generator.hpp b/include/edsp/random/noise/brown_noise_generator.hpp
index 9f57e8d..3048041 100644
--- a/include/edsp/random/noise/brown_noise_generator.hpp
+++ b/include/edsp/random/noise/brown_noise_generator.hpp
@@ -38,7 +38,7 @@ namespace edsp { namespace random {
          * @brief Creates a brown noise sequence generator.
          */
         inline brown_noise_generator(value_type min, value_type max) :
-            generator_(white_noise_generator<value_type>(min, max)) {}
+            generator_(min, max) {}
 
         /**
         * @brief Generates a random number following the noise distribution.
diff --git a/include/edsp/random/noise/pink_noise_generator.hpp b/include/edsp/random/noise/pink_noise_generator.hpp
index 7f9410f..8dbc305 100644
--- a/include/edsp/random/noise/pink_noise_generator.hpp
+++ b/include/edsp/random/noise/pink_noise_generator.hpp
@@ -38,7 +38,7 @@ namespace edsp { namespace random {
          * @brief Creates a pink noise sequence generator.
          */
         inline pink_noise_generator(value_type min, value_type max) :
-            generator_(white_noise_generator<value_type>(min, max)) {}
+            generator_(min, max) {}
 
         /**
         * @brief Generates a random number following the noise distribution.
-- 
2.43.0


From 58541359302322e2ad6fad104b0bf772f77c1d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:29 +0000
Subject: [PATCH 66/96] fix: perlin noise: usable, and the noise at a random
 position

---
 .../edsp/random/noise/perlin_noise_generator.hpp  | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/edsp/random/noise/perlin_noise_generator.hpp b/include/edsp/random/noise/perlin_noise_generator.hpp
index 124f112..c3e62da 100644
--- a/include/edsp/random/noise/perlin_noise_generator.hpp
+++ b/include/edsp/random/noise/perlin_noise_generator.hpp
@@ -25,6 +25,8 @@
 #include <array>
 #include <random>
 #include <chrono>
+#include <cmath>
+#include <cstdint>
 
 namespace edsp { namespace random {
 
@@ -59,7 +61,7 @@ namespace edsp { namespace random {
          */
         inline perlin_noise_generator() :
             generator_(Engine(static_cast<std::size_t>(std::chrono::system_clock::now().time_since_epoch().count()))),
-            distribution_(std::uniform_int_distribution<T>(0, 511)) {}
+            distribution_(0, 511) {}
 
         /**
         * @brief Generates a random number following the noise distribution.
@@ -69,16 +71,16 @@ namespace edsp { namespace random {
             const auto random_value = distribution_(generator_);
             const auto index        = static_cast<std::int64_t>(random_value) & 0xFF;
             const auto floor_value  = random_value - std::floor(random_value);
-            const auto fade_value   = fade(random_value);
+            const auto fade_value   = fade(floor_value);
             return lerp(fade_value, grad(permutation[index], floor_value),
-                        grad(permutation[index + 1], floor_value - 1)) *
+                        grad(permutation[(index + 1) & 0xFF], floor_value - 1)) *
                    2;
         }
 
     private:
         Engine generator_;
-        std::uniform_int_distribution<T> distribution_;
-        static constexpr const std::array<T, 512> permutation = {
+        std::uniform_real_distribution<T> distribution_;
+        static constexpr const std::array<std::int32_t, 256> permutation = {
             {151, 160, 137, 91,  90,  15,  131, 13,  201, 95,  96,  53,  194, 233, 7,   225, 140, 36,  103, 30,
              69,  142, 8,   99,  37,  240, 21,  10,  23,  190, 6,   148, 247, 120, 234, 75,  0,   26,  197, 62,
              94,  252, 219, 203, 117, 35,  11,  32,  57,  177, 33,  88,  237, 149, 56,  87,  174, 20,  125, 136,
@@ -94,5 +96,8 @@ namespace edsp { namespace random {
              222, 114, 67,  29,  24,  72,  243, 141, 128, 195, 78,  66,  215, 61,  156, 180}};
     };
 
+    template <typename T, typename Engine>
+    constexpr const std::array<std::int32_t, 256> perlin_noise_generator<T, Engine>::permutation;
+
 }}     // namespace edsp::random
 #endif // EDSP_PERLIN_NOISE_GENERATOR_HPP
-- 
2.43.0


From c2596f9696d7a21738c96d265666dcbaf063d7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:29 +0000
Subject: [PATCH 67/96] fix: perlin noise and random_generator can be included
 in any order

---
 include/edsp/random/noise/perlin_noise_generator.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/edsp/random/noise/perlin_noise_generator.hpp b/include/edsp/random/noise/perlin_noise_generator.hpp
index c3e62da..5ab6b33 100644
--- a/include/edsp/random/noise/perlin_noise_generator.hpp
+++ b/include/edsp/random/noise/perlin_noise_generator.hpp
@@ -30,7 +30,7 @@
 
 namespace edsp { namespace random {
 
-    inline namespace internal {
+    namespace internal {
         template <typename T>
         constexpr T fade(T t) noexcept {
             return t * t * t * (t * (t * 6 - 15) + 10);
@@ -71,9 +71,9 @@ namespace edsp { namespace random {
             const auto random_value = distribution_(generator_);
             const auto index        = static_cast<std::int64_t>(random_value) & 0xFF;
             const auto floor_value  = random_value - std::floor(random_value);
-            const auto fade_value   = fade(floor_value);
-            return lerp(fade_value, grad(permutation[index], floor_value),
-                        grad(permutation[(index + 1) & 0xFF], floor_value - 1)) *
+            const auto fade_value   = internal::fade(floor_value);
+            return internal::lerp(fade_value, internal::grad(permutation[index], floor_value),
+                                  internal::grad(permutation[(index + 1) & 0xFF], floor_value - 1)) *
                    2;
         }
 
-- 
2.43.0


From 5d347a807d5ccb6ec2bdb085ddb5c123cead8c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:44:48 +0000
Subject: [PATCH 68/96] fix: random_generator: every distribution can be
 constructed and drawn from

---
 include/edsp/random/random_generator.hpp | 70 ++++++++++++++++++------
 1 file changed, 52 insertions(+), 18 deletions(-)

diff --git a/include/edsp/random/random_generator.hpp b/include/edsp/random/random_generator.hpp
index e98d5ea..356ea40 100644
--- a/include/edsp/random/random_generator.hpp
+++ b/include/edsp/random/random_generator.hpp
@@ -56,12 +56,12 @@ namespace edsp { namespace random {
 
         template <typename Distribution, typename Engine = std::mt19937>
         struct RandomGeneratorImpl {
-            using value_type = typename Distribution::value_type;
+            using value_type = typename Distribution::result_type;
             template <typename... Args>
             explicit RandomGeneratorImpl(Args... arg) :
                 generator_(
                     Engine(static_cast<std::size_t>(std::chrono::system_clock::now().time_since_epoch().count()))),
-                distribution_(Distribution(std::forward(arg...))) {}
+                distribution_(arg...) {}
 
             inline value_type operator()() {
                 return static_cast<value_type>(distribution_(generator_));
@@ -77,73 +77,107 @@ namespace edsp { namespace random {
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Uniform, T>
-            : public RandomGeneratorImpl<std::uniform_real_distribution<T>> {};
+            : public RandomGeneratorImpl<std::uniform_real_distribution<T>> {
+            using RandomGeneratorImpl<std::uniform_real_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Bernoulli, T>
-            : public RandomGeneratorImpl<std::bernoulli_distribution, T> {};
+            : public RandomGeneratorImpl<std::bernoulli_distribution> {
+            using RandomGeneratorImpl<std::bernoulli_distribution>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Binomial, T>
-            : public RandomGeneratorImpl<std::binomial_distribution<T>> {};
+            : public RandomGeneratorImpl<std::binomial_distribution<T>> {
+            using RandomGeneratorImpl<std::binomial_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Geometric, T>
-            : public RandomGeneratorImpl<std::geometric_distribution<T>> {};
+            : public RandomGeneratorImpl<std::geometric_distribution<T>> {
+            using RandomGeneratorImpl<std::geometric_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Poisson, T>
-            : public RandomGeneratorImpl<std::poisson_distribution<T>> {};
+            : public RandomGeneratorImpl<std::poisson_distribution<T>> {
+            using RandomGeneratorImpl<std::poisson_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Exponential, T>
-            : public RandomGeneratorImpl<std::exponential_distribution<T>> {};
+            : public RandomGeneratorImpl<std::exponential_distribution<T>> {
+            using RandomGeneratorImpl<std::exponential_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
-        struct _RandomGenerator<DistributionType::Gamma, T> : public RandomGeneratorImpl<std::gamma_distribution<T>> {};
+        struct _RandomGenerator<DistributionType::Gamma, T> : public RandomGeneratorImpl<std::gamma_distribution<T>> {
+            using RandomGeneratorImpl<std::gamma_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Weibull, T>
-            : public RandomGeneratorImpl<std::weibull_distribution<T>> {};
+            : public RandomGeneratorImpl<std::weibull_distribution<T>> {
+            using RandomGeneratorImpl<std::weibull_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::ExtremeValue, T>
-            : public RandomGeneratorImpl<std::extreme_value_distribution<T>> {};
+            : public RandomGeneratorImpl<std::extreme_value_distribution<T>> {
+            using RandomGeneratorImpl<std::extreme_value_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Normal, T> : public RandomGeneratorImpl<std::normal_distribution<T>> {
+            using RandomGeneratorImpl<std::normal_distribution<T>>::RandomGeneratorImpl;
         };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::LogNormal, T>
-            : public RandomGeneratorImpl<std::lognormal_distribution<T>> {};
+            : public RandomGeneratorImpl<std::lognormal_distribution<T>> {
+            using RandomGeneratorImpl<std::lognormal_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::ChiSquared, T>
-            : public RandomGeneratorImpl<std::chi_squared_distribution<T>> {};
+            : public RandomGeneratorImpl<std::chi_squared_distribution<T>> {
+            using RandomGeneratorImpl<std::chi_squared_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Fisher, T>
-            : public RandomGeneratorImpl<std::fisher_f_distribution<T>> {};
+            : public RandomGeneratorImpl<std::fisher_f_distribution<T>> {
+            using RandomGeneratorImpl<std::fisher_f_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Student, T>
-            : public RandomGeneratorImpl<std::student_t_distribution<T>> {};
+            : public RandomGeneratorImpl<std::student_t_distribution<T>> {
+            using RandomGeneratorImpl<std::student_t_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Discrete, T>
-            : public RandomGeneratorImpl<std::discrete_distribution<T>> {};
+            : public RandomGeneratorImpl<std::discrete_distribution<T>> {
+            using RandomGeneratorImpl<std::discrete_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::PieceWiseConstant, T>
-            : public RandomGeneratorImpl<std::piecewise_constant_distribution<T>> {};
+            : public RandomGeneratorImpl<std::piecewise_constant_distribution<T>> {
+            using RandomGeneratorImpl<std::piecewise_constant_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::PieceWiseLinear, T>
-            : public RandomGeneratorImpl<std::piecewise_linear_distribution<T>> {};
+            : public RandomGeneratorImpl<std::piecewise_linear_distribution<T>> {
+            using RandomGeneratorImpl<std::piecewise_linear_distribution<T>>::RandomGeneratorImpl;
+        };
 
         template <typename T>
         struct _RandomGenerator<DistributionType::Cauchy, T> : public RandomGeneratorImpl<std::cauchy_distribution<T>> {
+            using RandomGeneratorImpl<std::cauchy_distribution<T>>::RandomGeneratorImpl;
         };
 
     } // namespace internal
-- 
2.43.0


From ca6cffb430c14a6f2a9cb3bd8f30fb9f32b2ef9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:14 +0000
Subject: [PATCH 69/96] fix: snr compiles whichever feature headers were
 included before

---
 include/edsp/feature/temporal/snr.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/feature/temporal/snr.hpp b/include/edsp/feature/temporal/snr.hpp
index 23b3166..cd7496b 100644
--- a/include/edsp/feature/temporal/snr.hpp
+++ b/include/edsp/feature/temporal/snr.hpp
@@ -56,8 +56,8 @@ namespace edsp { namespace feature { inline namespace temporal {
         std::transform(first1, last1, first2, std::begin(noise),
                        [](const value_type left, const value_type right) { return left - right; });
 
-        const auto var_ref   = statistics::variance(first1, last1);
-        const auto var_noise = statistics::variance(std::cbegin(noise), std::cend(noise));
+        const auto var_ref   = edsp::statistics::variance(first1, last1);
+        const auto var_noise = edsp::statistics::variance(std::cbegin(noise), std::cend(noise));
         return converter::pow2db(var_ref / var_noise);
     }
 
-- 
2.43.0


From 0029b358cf5ace57dce5f8c79f98528043bb490c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:14 +0000
Subject: [PATCH 70/96] fix: ring_span compiles next to the other nonstd
 headers

---
 include/edsp/thirdparty/nonstd/ring_span.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/ring_span.hpp b/include/edsp/thirdparty/nonstd/ring_span.hpp
index 1485ff7..a1273c7 100644
--- a/include/edsp/thirdparty/nonstd/ring_span.hpp
+++ b/include/edsp/thirdparty/nonstd/ring_span.hpp
@@ -318,7 +318,7 @@ namespace nonstd {
 
     // forward-declare iterator:
 
-    namespace detail {
+    namespace ring_detail {
 
         template <class, bool>
         class ring_iterator;
@@ -339,8 +339,8 @@ namespace nonstd {
 
         typedef ring_span<T, Popper> type;
 
-        typedef detail::ring_iterator<type, false> iterator;
-        typedef detail::ring_iterator<type, true> const_iterator;
+        typedef ring_detail::ring_iterator<type, false> iterator;
+        typedef ring_detail::ring_iterator<type, true> const_iterator;
 
 #    if nsrs_RING_SPAN_LITE_EXTENSION
         typedef std::reverse_iterator<iterator> reverse_iterator;
@@ -579,8 +579,8 @@ namespace nonstd {
         }
 
     private:
-        friend class detail::ring_iterator<ring_span, true>;  // const_iterator;
-        friend class detail::ring_iterator<ring_span, false>; // iterator;
+        friend class ring_detail::ring_iterator<ring_span, true>;  // const_iterator;
+        friend class ring_detail::ring_iterator<ring_span, false>; // iterator;
 
         size_type normalize_(size_type const idx) const nsrs_noexcept {
             return idx % m_capacity;
@@ -652,7 +652,7 @@ namespace nonstd {
         lhs.swap(rhs);
     }
 
-    namespace detail {
+    namespace ring_detail {
 
 //
 // ring iterator:
@@ -815,7 +815,7 @@ class ring_iterator : public std::iterator
             return it;
         }
 
-    } // namespace detail
+    } // namespace ring_detail
 } // namespace nonstd
 
 nsrs_RESTORE_WARNINGS()
-- 
2.43.0


From 5f4064b2beda8f5f3533ae7a42e1db8f2a41777b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:32:14 +0000
Subject: [PATCH 71/96] fix: headers include what they use

---
 include/edsp/algorithm/indexof.hpp                 | 1 +
 include/edsp/algorithm/logspace.hpp                | 1 +
 include/edsp/feature/temporal/rms.hpp              | 1 +
 include/edsp/filter/internal/abstract_designer.hpp | 1 +
 include/edsp/thirdparty/nonstd/span.hpp            | 5 ++---
 include/edsp/windowing/blackman_harris.hpp         | 1 +
 include/edsp/windowing/blackman_nuttall.hpp        | 1 +
 include/edsp/windowing/hanning.hpp                 | 1 +
 8 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/edsp/algorithm/indexof.hpp b/include/edsp/algorithm/indexof.hpp
index 0810692..23313f6 100644
--- a/include/edsp/algorithm/indexof.hpp
+++ b/include/edsp/algorithm/indexof.hpp
@@ -23,6 +23,7 @@
 #ifndef EDSP_INDEX_OF_HPP
 #define EDSP_INDEX_OF_HPP
 
+#include <cstdint>
 #include <iterator>
 
 namespace edsp { inline namespace algorithm {
diff --git a/include/edsp/algorithm/logspace.hpp b/include/edsp/algorithm/logspace.hpp
index 8641022..a6a41e4 100644
--- a/include/edsp/algorithm/logspace.hpp
+++ b/include/edsp/algorithm/logspace.hpp
@@ -22,6 +22,7 @@
 #ifndef EDSP_ALGORITHM_LOGSPACE_H
 #define EDSP_ALGORITHM_LOGSPACE_H
 
+#include <cmath>
 #include <iterator>
 
 namespace edsp { inline namespace algorithm {
diff --git a/include/edsp/feature/temporal/rms.hpp b/include/edsp/feature/temporal/rms.hpp
index ac287f7..0f4c58c 100644
--- a/include/edsp/feature/temporal/rms.hpp
+++ b/include/edsp/feature/temporal/rms.hpp
@@ -22,6 +22,7 @@
 #ifndef EDSP_STATISTICAL_RMS_H
 #define EDSP_STATISTICAL_RMS_H
 
+#include <iterator>
 #include <numeric>
 #include <cmath>
 
diff --git a/include/edsp/filter/internal/abstract_designer.hpp b/include/edsp/filter/internal/abstract_designer.hpp
index bb1ec10..75a1cef 100644
--- a/include/edsp/filter/internal/abstract_designer.hpp
+++ b/include/edsp/filter/internal/abstract_designer.hpp
@@ -24,6 +24,7 @@
 
 #include <edsp/filter/internal/bilinear/layout_base.hpp>
 #include <edsp/filter/biquad_cascade.hpp>
+#include <edsp/math/constant.hpp>
 #include <complex>
 
 namespace edsp { namespace filter {
diff --git a/include/edsp/thirdparty/nonstd/span.hpp b/include/edsp/thirdparty/nonstd/span.hpp
index 44c9fe5..3ac60e5 100644
--- a/include/edsp/thirdparty/nonstd/span.hpp
+++ b/include/edsp/thirdparty/nonstd/span.hpp
@@ -401,9 +401,8 @@ span_DISABLE_MSVC_WARNINGS(26439 26440 26472 26473 26481 26490)
 #        include <cstdio>
 #    endif
 
-#    if span_CONFIG(CONTRACT_VIOLATION_THROWS_V)
-#        include <stdexcept>
-#    endif
+#    include <exception>
+#    include <stdexcept>
 
 // Contract violation
 
diff --git a/include/edsp/windowing/blackman_harris.hpp b/include/edsp/windowing/blackman_harris.hpp
index 8fd0764..b3c0487 100644
--- a/include/edsp/windowing/blackman_harris.hpp
+++ b/include/edsp/windowing/blackman_harris.hpp
@@ -23,6 +23,7 @@
 #define EDSP_BLACKMANHARRIS_HARRIS_HPP
 
 #include <edsp/math/numeric.hpp>
+#include <edsp/math/constant.hpp>
 #include <edsp/meta/iterator.hpp>
 #include <cmath>
 
diff --git a/include/edsp/windowing/blackman_nuttall.hpp b/include/edsp/windowing/blackman_nuttall.hpp
index 31bb038..6131235 100644
--- a/include/edsp/windowing/blackman_nuttall.hpp
+++ b/include/edsp/windowing/blackman_nuttall.hpp
@@ -23,6 +23,7 @@
 #define EDSP_BLACKMAN_NUTTAL_HARRIS_HPP
 
 #include <edsp/math/numeric.hpp>
+#include <edsp/math/constant.hpp>
 #include <edsp/meta/iterator.hpp>
 
 namespace edsp { namespace windowing {
diff --git a/include/edsp/windowing/hanning.hpp b/include/edsp/windowing/hanning.hpp
index 5e361f3..e8ee6d0 100644
--- a/include/edsp/windowing/hanning.hpp
+++ b/include/edsp/windowing/hanning.hpp
@@ -23,6 +23,7 @@
 #define EDSP_HANNING_HPP
 
 #include <edsp/math/numeric.hpp>
+#include <edsp/math/constant.hpp>
 #include <edsp/meta/iterator.hpp>
 #include <cmath>
 
-- 
2.43.0


From 4ece34e6f5598a1bc69901895aa3d891f209bc1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:41:52 +0000
Subject: [PATCH 72/96] fix: moving_average_filter includes what it uses

---
 include/edsp/filter/moving_average_filter.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/edsp/filter/moving_average_filter.hpp b/include/edsp/filter/moving_average_filter.hpp
index 2a8fd2c..35d2d7c 100644
--- a/include/edsp/filter/moving_average_filter.hpp
+++ b/include/edsp/filter/moving_average_filter.hpp
@@ -23,6 +23,7 @@
 #define EDSP_FILTER_MOVING_AVERAGE_FILTER_H
 
 #include <edsp/types/ring_buffer.hpp>
+#include <algorithm>
 
 namespace edsp { namespace filter {
 
-- 
2.43.0


From baeb04db1b0d490600262db41d63c7526a133f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:04 +0000
Subject: [PATCH 73/96] fix: meta::data takes arrays

---
 include/edsp/meta/data.hpp | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/edsp/meta/data.hpp b/include/edsp/meta/data.hpp
index decb273..20ce0b8 100644
--- a/include/edsp/meta/data.hpp
+++ b/include/edsp/meta/data.hpp
@@ -23,7 +23,9 @@
 #ifndef EDSP_META_DATA_HPP
 #define EDSP_META_DATA_HPP
 
+#include <cstddef>
 #include <initializer_list>
+#include <type_traits>
 
 namespace edsp { namespace meta {
 
@@ -37,13 +39,8 @@ namespace edsp { namespace meta {
         return c.data();
     }
 
-    template <class T>
-    constexpr const T* data(const T* ptr) {
-        return ptr;
-    }
-
-    template <class T>
-    constexpr T* data(T* ptr) {
+    template <class P, typename = typename std::enable_if<std::is_pointer<P>::value>::type>
+    constexpr P data(P ptr) {
         return ptr;
     }
 
-- 
2.43.0


From 5afa33266f66de27d890ac44cb713855b2bb840e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:04 +0000
Subject: [PATCH 74/96] fix: meta::equal compares in the precision of its
 numbers

---
 include/edsp/meta/equal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/meta/equal.hpp b/include/edsp/meta/equal.hpp
index a1b333c..f8f1807 100644
--- a/include/edsp/meta/equal.hpp
+++ b/include/edsp/meta/equal.hpp
@@ -33,8 +33,8 @@ namespace edsp { namespace meta {
 
         template <typename T, bool = std::is_floating_point<T>::value>
         struct _equal {
-            constexpr bool operator()(const float& lhs, const float& rhs) {
-                return std::abs(lhs - rhs) < std::numeric_limits<float>::epsilon();
+            constexpr bool operator()(const T& lhs, const T& rhs) {
+                return lhs == rhs || std::abs(lhs - rhs) < std::numeric_limits<T>::epsilon();
             }
         };
 
-- 
2.43.0


From 58ee1234221341b2c52000f851da2bca0aec4391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:18:07 +0000
Subject: [PATCH 75/96] fix: meta::is_null takes constant arrays

---
 include/edsp/meta/is_null.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/edsp/meta/is_null.hpp b/include/edsp/meta/is_null.hpp
index b06d09e..22d37d0 100644
--- a/include/edsp/meta/is_null.hpp
+++ b/include/edsp/meta/is_null.hpp
@@ -27,6 +27,7 @@
 #include <edsp/meta/unused.hpp>
 #include <cstring>
 #include <memory>
+#include <type_traits>
 
 namespace edsp { namespace meta {
 
@@ -42,9 +43,12 @@ namespace edsp { namespace meta {
         return false;
     }
 
-    template <class T>
-    constexpr bool is_null(const T* ptr) {
-        return ptr == nullptr || ptr == NULL;
+    // texts are also null when they are empty, see below
+    template <class P, typename = typename std::enable_if<
+                           std::is_pointer<P>::value &&
+                           !std::is_same<typename std::remove_cv<typename std::remove_pointer<P>::type>::type, char>::value>::type>
+    constexpr bool is_null(P ptr) {
+        return ptr == nullptr;
     }
 
     constexpr bool is_null(const char* str) noexcept {
-- 
2.43.0


From e583fbc80482ec80579965b367ef52bf2a13859b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:38:59 +0000
Subject: [PATCH 76/96] fix: designs of odd order do not break their own
 assertions

---
 include/edsp/filter/internal/bilinear/layout_base.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/filter/internal/bilinear/layout_base.hpp b/include/edsp/filter/internal/bilinear/layout_base.hpp
index a2c681b..e691b25 100644
--- a/include/edsp/filter/internal/bilinear/layout_base.hpp
+++ b/include/edsp/filter/internal/bilinear/layout_base.hpp
@@ -43,8 +43,8 @@ namespace edsp { namespace filter {
     struct complex_pair : public std::pair<std::complex<T>, std::complex<T>> {
         using base = std::pair<std::complex<T>, std::complex<T>>;
         explicit constexpr complex_pair(const std::complex<T>& c1) : base(c1, std::complex<T>(0, 0)) {
-            meta::expects(c1.imag() == 0, "Expected a real number");
-            meta::ensure(this->is_real(), "Expected a real initialization");
+            meta::expects(c1.imag() == 0 || math::is_inf(c1), "Expected a real number or infinity");
+            meta::ensure(this->is_real() || math::is_inf(c1), "Expected a real initialization");
         }
 
         constexpr complex_pair() : base(std::complex<T>(0, 0), std::complex<T>(0, 0)) {}
-- 
2.43.0


From 04f24b77fcb75803673996625bbaaa2387ec4ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:49 +0000
Subject: [PATCH 77/96] fix: putting a variable into an any copies it instead
 of moving from it

---
 include/edsp/thirdparty/nonstd/any.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/any.hpp b/include/edsp/thirdparty/nonstd/any.hpp
index eee470f..9ae36c8 100644
--- a/include/edsp/thirdparty/nonstd/any.hpp
+++ b/include/edsp/thirdparty/nonstd/any.hpp
@@ -375,7 +375,7 @@ namespace nonstd {
 
             template <class ValueType, class T = typename std::decay<ValueType>::type,
                       typename = typename std::enable_if<!std::is_same<T, any>::value>::type>
-            any(ValueType&& value) any_noexcept : content(new holder<T>(std::move(value))) {}
+            any(ValueType&& value) : content(new holder<T>(std::forward<ValueType>(value))) {}
 
             template <class T, class... Args,
                       typename = typename std::enable_if<std::is_constructible<T, Args...>::value>::type>
@@ -414,7 +414,7 @@ namespace nonstd {
             template <class ValueType, class T = typename std::decay<ValueType>::type,
                       typename = typename std::enable_if<!std::is_same<T, any>::value>::type>
             any& operator=(ValueType&& value) {
-                any(std::move(value)).swap(*this);
+                any(std::forward<ValueType>(value)).swap(*this);
                 return *this;
             }
 
-- 
2.43.0


From d722202d561baa6c40a7887887ebae89cb9dda67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:49 +0000
Subject: [PATCH 78/96] fix: any_cast to a reference compiles

---
 include/edsp/thirdparty/nonstd/any.hpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/any.hpp b/include/edsp/thirdparty/nonstd/any.hpp
index 9ae36c8..3ac3b6d 100644
--- a/include/edsp/thirdparty/nonstd/any.hpp
+++ b/include/edsp/thirdparty/nonstd/any.hpp
@@ -530,7 +530,7 @@ namespace nonstd {
 #        endif
                   >
         any_nodiscard inline ValueType any_cast(any const& operand) {
-            const ValueType* result =
+            typename detail::add_const<typename detail::remove_reference<ValueType>::type>::type* result =
                 any_cast<typename detail::add_const<typename detail::remove_reference<ValueType>::type>::type>(
                     &operand);
 
@@ -549,7 +549,8 @@ namespace nonstd {
 #        endif
                   >
         any_nodiscard inline ValueType any_cast(any& operand) {
-            const ValueType* result = any_cast<typename detail::remove_reference<ValueType>::type>(&operand);
+            typename detail::remove_reference<ValueType>::type* result =
+                any_cast<typename detail::remove_reference<ValueType>::type>(&operand);
 
             if (!result) {
                 throw bad_any_cast();
@@ -568,7 +569,8 @@ namespace nonstd {
 #            endif
                   >
         any_nodiscard inline ValueType any_cast(any&& operand) {
-            const ValueType* result = any_cast<typename detail::remove_reference<ValueType>::type>(&operand);
+            typename detail::remove_reference<ValueType>::type* result =
+                any_cast<typename detail::remove_reference<ValueType>::type>(&operand);
 
             if (!result) {
                 throw bad_any_cast();
-- 
2.43.0


From 8bb750c429d8373d3cd68f683fa831f827c9be0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:49 +0000
Subject: [PATCH 79/96] fix: an expected is constructed in place from any
 arguments

---
 include/edsp/thirdparty/nonstd/expected.hpp | 29 ++++++++++++++++-----
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/expected.hpp b/include/edsp/thirdparty/nonstd/expected.hpp
index bbf4631..dcb6f57 100644
--- a/include/edsp/thirdparty/nonstd/expected.hpp
+++ b/include/edsp/thirdparty/nonstd/expected.hpp
@@ -310,6 +310,11 @@ namespace nonstd {
                     new (&m_value) value_type(std::move(v));
                 }
 
+                template <typename... Args>
+                void emplace_value(Args&&... args) {
+                    new (&m_value) value_type(std::forward<Args>(args)...);
+                }
+
                 void destruct_value() {
                     m_value.~value_type();
                 }
@@ -322,6 +327,11 @@ namespace nonstd {
                     new (&m_error) error_type(std::move(e));
                 }
 
+                template <typename... Args>
+                void emplace_error(Args&&... args) {
+                    new (&m_error) error_type(std::forward<Args>(args)...);
+                }
+
                 void destruct_error() {
                     m_error.~error_type();
                 }
@@ -385,6 +395,11 @@ namespace nonstd {
                     new (&m_error) error_type(std::move(e));
                 }
 
+                template <typename... Args>
+                void emplace_error(Args&&... args) {
+                    new (&m_error) error_type(std::forward<Args>(args)...);
+                }
+
                 void destruct_error() {
                     m_error.~error_type();
                 }
@@ -859,14 +874,14 @@ namespace nonstd {
 
             template <typename... Args nsel_REQUIRES_T(std::is_constructible<T, Args&&...>::value)>
             nsel_constexpr14 explicit expected(nonstd_lite_in_place_t(T), Args&&... args) : has_value_(true) {
-                contained.construct_value(std::forward<Args>(args)...);
+                contained.emplace_value(std::forward<Args>(args)...);
             }
 
             template <typename U, typename... Args nsel_REQUIRES_T(
                                       std::is_constructible<T, std::initializer_list<U>, Args&&...>::value)>
             nsel_constexpr14 explicit expected(nonstd_lite_in_place_t(T), std::initializer_list<U> il, Args&&... args) :
                 has_value_(true) {
-                contained.construct_value(il, std::forward<Args>(args)...);
+                contained.emplace_value(il, std::forward<Args>(args)...);
             }
 
             template <typename G = E>
@@ -899,14 +914,14 @@ namespace nonstd {
 
             template <typename... Args nsel_REQUIRES_T(std::is_constructible<E, Args&&...>::value)>
             nsel_constexpr14 explicit expected(unexpect_t, Args&&... args) : has_value_(false) {
-                contained.construct_error(std::forward<Args>(args)...);
+                contained.emplace_error(std::forward<Args>(args)...);
             }
 
             template <typename U, typename... Args nsel_REQUIRES_T(
                                       std::is_constructible<T, std::initializer_list<U>, Args&&...>::value)>
             nsel_constexpr14 explicit expected(unexpect_t, std::initializer_list<U> il, Args&&... args) :
                 has_value_(false) {
-                contained.construct_error(il, std::forward<Args>(args)...);
+                contained.emplace_error(il, std::forward<Args>(args)...);
             }
 
             // x.x.4.2 destructor
@@ -1206,14 +1221,14 @@ namespace nonstd {
 
             template <typename... Args nsel_REQUIRES_T(std::is_constructible<E, Args&&...>::value)>
             nsel_constexpr14 explicit expected(unexpect_t, Args&&... args) : has_value_(false) {
-                contained.construct_error(std::forward<Args>(args)...);
+                contained.emplace_error(std::forward<Args>(args)...);
             }
 
             template <typename U, typename... Args nsel_REQUIRES_T(
                                       std::is_constructible<U, std::initializer_list<U>, Args&&...>::value)>
             nsel_constexpr14 explicit expected(unexpect_t, std::initializer_list<U> il, Args&&... args) :
                 has_value_(false) {
-                contained.construct_error(il, std::forward<Args>(args)...);
+                contained.emplace_error(il, std::forward<Args>(args)...);
             }
 
             // destructor
@@ -1229,7 +1244,7 @@ namespace nonstd {
             //        std::is_copy_constructible<E>::value &&
             //        std::is_copy_assignable<E>::value )
 
-            expected& operator=(expected const& other) {
+            expected operator=(expected const& other) {
                 expected(other).swap(*this);
                 return *this;
             }
-- 
2.43.0


From 9352ed30e16719c559e37067fec67d81e9f9420c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:49 +0000
Subject: [PATCH 80/96] fix: copy assignment of an expected returns its target

---
 include/edsp/thirdparty/nonstd/expected.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/expected.hpp b/include/edsp/thirdparty/nonstd/expected.hpp
index dcb6f57..102b7ac 100644
--- a/include/edsp/thirdparty/nonstd/expected.hpp
+++ b/include/edsp/thirdparty/nonstd/expected.hpp
@@ -941,7 +941,7 @@ namespace nonstd {
             //        std::is_copy_constructible<E>::value &&
             //        std::is_copy_assignable<E>::value )
 
-            expected operator=(expected const& other) {
+            expected& operator=(expected const& other) {
                 expected(other).swap(*this);
                 return *this;
             }
@@ -1244,7 +1244,7 @@ namespace nonstd {
             //        std::is_copy_constructible<E>::value &&
             //        std::is_copy_assignable<E>::value )
 
-            expected operator=(expected const& other) {
+            expected& operator=(expected const& other) {
                 expected(other).swap(*this);
                 return *this;
             }
-- 
2.43.0


From 900bfaab862ec1450424a8ca8bb194e6d80b5273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:49 +0000
Subject: [PATCH 81/96] fix: copy assignment of an optional lets an exception
 of the copy out

---
 include/edsp/thirdparty/nonstd/optional.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/optional.hpp b/include/edsp/thirdparty/nonstd/optional.hpp
index aa813c5..70da533 100644
--- a/include/edsp/thirdparty/nonstd/optional.hpp
+++ b/include/edsp/thirdparty/nonstd/optional.hpp
@@ -892,8 +892,7 @@ namespace nonstd {
                                 //      std::is_copy_constructible<T>::value
                                 //      && std::is_copy_assignable<T>::value
                                 )
-                operator=(optional const& other) noexcept(
-                    std::is_nothrow_move_assignable<T>::value&& std::is_nothrow_move_constructible<T>::value)
+                operator=(optional const& other)
 #        else
             optional& operator=(optional const& other)
 #        endif
-- 
2.43.0


From 34f26b739ec4fb4dcf8c3b1280225eb14a8c8dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:49 +0000
Subject: [PATCH 82/96] fix: swapping optionals moves their values

---
 include/edsp/thirdparty/nonstd/optional.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/edsp/thirdparty/nonstd/optional.hpp b/include/edsp/thirdparty/nonstd/optional.hpp
index 70da533..5220fe1 100644
--- a/include/edsp/thirdparty/nonstd/optional.hpp
+++ b/include/edsp/thirdparty/nonstd/optional.hpp
@@ -1031,10 +1031,18 @@ namespace nonstd {
                 if (has_value() == true && other.has_value() == true) {
                     swap(**this, *other);
                 } else if (has_value() == false && other.has_value() == true) {
+#        if optional_CPP11_OR_GREATER
+                    initialize(std::move(*other));
+#        else
                     initialize(*other);
+#        endif
                     other.reset();
                 } else if (has_value() == true && other.has_value() == false) {
+#        if optional_CPP11_OR_GREATER
+                    other.initialize(std::move(**this));
+#        else
                     other.initialize(**this);
+#        endif
                     reset();
                 }
             }
-- 
2.43.0


From 3e9c392b833d8d408f8b293f3dfe61ad30e032b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:49 +0000
Subject: [PATCH 83/96] fix: assignment of a variant ends the value it replaces

---
 include/edsp/thirdparty/nonstd/variant.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/variant.hpp b/include/edsp/thirdparty/nonstd/variant.hpp
index 8cf0139..22745f7 100644
--- a/include/edsp/thirdparty/nonstd/variant.hpp
+++ b/include/edsp/thirdparty/nonstd/variant.hpp
@@ -1651,9 +1651,7 @@ namespace nonstd {
                 } else if (!valueless_by_exception() && other.valueless_by_exception()) {
                     helper_type::destroy(type_index, ptr());
                     type_index = variant_npos_internal();
-                } else if (index() == other.index()) {
-                    type_index = helper_type::copy(other.type_index, other.ptr(), ptr());
-                } else {
+                } else if (this != &other) {
                     // alas exception safety with pre-C++11 needs an extra copy:
 
                     variant tmp(other);
@@ -1676,9 +1674,7 @@ namespace nonstd {
                 } else if (!valueless_by_exception() && other.valueless_by_exception()) {
                     helper_type::destroy(type_index, ptr());
                     type_index = variant_npos_internal();
-                } else if (index() == other.index()) {
-                    type_index = helper_type::move(other.type_index, other.ptr(), ptr());
-                } else {
+                } else if (this != &other) {
                     helper_type::destroy(type_index, ptr());
                     type_index = variant_npos_internal();
                     type_index = helper_type::move(other.type_index, other.ptr(), ptr());
-- 
2.43.0


From 2cabb22196976511969b78ddb8b57c234ffd384a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:49 +0000
Subject: [PATCH 84/96] fix: swapping variants moves their values

---
 include/edsp/thirdparty/nonstd/variant.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/edsp/thirdparty/nonstd/variant.hpp b/include/edsp/thirdparty/nonstd/variant.hpp
index 22745f7..7d00e01 100644
--- a/include/edsp/thirdparty/nonstd/variant.hpp
+++ b/include/edsp/thirdparty/nonstd/variant.hpp
@@ -1569,9 +1569,15 @@ namespace nonstd {
                 } else if (index() == other.index()) {
                     this->swap_value(index(), other);
                 } else {
+#        if variant_CPP11_OR_GREATER
+                    variant tmp(std::move(*this));
+                    *this = std::move(other);
+                    other = std::move(tmp);
+#        else
                     variant tmp(*this);
                     *this = other;
                     other = tmp;
+#        endif
                 }
             }
 
-- 
2.43.0


From 3ce7d73180db6dbe447bd38426b35c1507c977cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:49 +0000
Subject: [PATCH 85/96] fix: a variant gives access to every one of its types

---
 include/edsp/thirdparty/nonstd/variant.hpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/variant.hpp b/include/edsp/thirdparty/nonstd/variant.hpp
index 7d00e01..43ae76a 100644
--- a/include/edsp/thirdparty/nonstd/variant.hpp
+++ b/include/edsp/thirdparty/nonstd/variant.hpp
@@ -1594,7 +1594,7 @@ namespace nonstd {
             T& get() {
                 const std::size_t i = index_of<T>();
 
-                if (i != index() || i == max_index()) {
+                if (i != index() || i == variant_npos) {
                     throw bad_variant_access();
                 }
 
@@ -1605,7 +1605,7 @@ namespace nonstd {
             T const& get() const {
                 const std::size_t i = index_of<T>();
 
-                if (i != index() || i == max_index()) {
+                if (i != index() || i == variant_npos) {
                     throw bad_variant_access();
                 }
 
@@ -1643,10 +1643,6 @@ namespace nonstd {
                 return reinterpret_cast<U const*>(ptr());
             }
 
-            variant_constexpr std::size_t max_index() const variant_noexcept {
-                return data_size;
-            }
-
             variant_constexpr type_index_t variant_npos_internal() const variant_noexcept {
                 return static_cast<type_index_t>(-1);
             }
-- 
2.43.0


From 5d60089fd0bcb2bb67ed8b075b5030bac5a359b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:49 +0000
Subject: [PATCH 86/96] fix: searching an empty string_view backwards ends

---
 include/edsp/thirdparty/nonstd/string_view.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/string_view.hpp b/include/edsp/thirdparty/nonstd/string_view.hpp
index 37e8e40..6a9ca83 100644
--- a/include/edsp/thirdparty/nonstd/string_view.hpp
+++ b/include/edsp/thirdparty/nonstd/string_view.hpp
@@ -705,7 +705,8 @@ nssv_DISABLE_MSVC_WARNINGS(4455 26481 26472)
 
             nssv_constexpr size_type find_last_of(basic_string_view v, size_type pos = npos) const nssv_noexcept // (1)
             {
-                return pos >= size() ? find_last_of(v, size() - 1)
+                return empty() ? npos
+                               : pos >= size() ? find_last_of(v, size() - 1)
                                      : to_pos(std::find_first_of(const_reverse_iterator(cbegin() + pos + 1), crend(),
                                                                  v.cbegin(), v.cend(), Traits::eq));
             }
@@ -753,7 +754,8 @@ nssv_DISABLE_MSVC_WARNINGS(4455 26481 26472)
             nssv_constexpr size_type find_last_not_of(basic_string_view v,
                                                       size_type pos = npos) const nssv_noexcept // (1)
             {
-                return pos >= size()
+                return empty() ? npos
+                               : pos >= size()
                            ? find_last_not_of(v, size() - 1)
                            : to_pos(std::find_if(const_reverse_iterator(cbegin() + pos + 1), crend(), not_in_view(v)));
             }
-- 
2.43.0


From d47b1e976802a7bf80a9add35e94ccd44ea04a27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:49 +0000
Subject: [PATCH 87/96] fix: the empty text is found at the end of a
 string_view

---
 include/edsp/thirdparty/nonstd/string_view.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/edsp/thirdparty/nonstd/string_view.hpp b/include/edsp/thirdparty/nonstd/string_view.hpp
index 6a9ca83..ea4ca80 100644
--- a/include/edsp/thirdparty/nonstd/string_view.hpp
+++ b/include/edsp/thirdparty/nonstd/string_view.hpp
@@ -627,7 +627,8 @@ nssv_DISABLE_MSVC_WARNINGS(4455 26481 26472)
             nssv_constexpr14 size_type find(basic_string_view v, size_type pos = 0) const nssv_noexcept // (1)
             {
                 return assert(v.size() == 0 || v.data() != nssv_nullptr),
-                       pos >= size() ? npos
+                       pos > size() || (pos == size() && !v.empty()) ? npos
+                       : v.empty() ? pos
                                      : to_pos(std::search(cbegin() + pos, cend(), v.cbegin(), v.cend(), Traits::eq));
             }
 
-- 
2.43.0


From 171ee49f6a6d14bbec607c9d98c111806d337aa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:22:49 +0000
Subject: [PATCH 88/96] fix: a string_view is padded in front unless left is
 asked for

---
 include/edsp/thirdparty/nonstd/string_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/thirdparty/nonstd/string_view.hpp b/include/edsp/thirdparty/nonstd/string_view.hpp
index ea4ca80..a840c81 100644
--- a/include/edsp/thirdparty/nonstd/string_view.hpp
+++ b/include/edsp/thirdparty/nonstd/string_view.hpp
@@ -1024,7 +1024,7 @@ nssv_DISABLE_MSVC_WARNINGS(4455 26481 26472)
 
                 // Whether, and how, to pad:
                 const bool pad      = (length < os.width());
-                const bool left_pad = pad && (os.flags() & std::ios_base::adjustfield) == std::ios_base::right;
+                const bool left_pad = pad && (os.flags() & std::ios_base::adjustfield) != std::ios_base::left;
 
                 if (left_pad)
                     write_padding(os, os.width() - length);
-- 
2.43.0


From f4290a28119294a13951adccedd71d32cb43f90f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:27:12 +0000
Subject: [PATCH 89/96] fix: a variable of any alternative can be assigned to a
 variant

---
 include/edsp/thirdparty/nonstd/variant.hpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/variant.hpp b/include/edsp/thirdparty/nonstd/variant.hpp
index 43ae76a..61c35c5 100644
--- a/include/edsp/thirdparty/nonstd/variant.hpp
+++ b/include/edsp/thirdparty/nonstd/variant.hpp
@@ -1472,7 +1472,7 @@ namespace nonstd {
                 return move_assign_value<T15, 15>(std::forward<T15>(t15));
             }
 
-#        else
+#        endif
             variant& operator=(T0 const& t0) {
                 return copy_assign_value<T0, 0>(t0);
             }
@@ -1522,8 +1522,6 @@ namespace nonstd {
                 return copy_assign_value<T15, 15>(t15);
             }
 
-#        endif
-
             std::size_t index() const {
                 return variant_npos_internal() == type_index ? variant_npos : type_index;
             }
@@ -1696,22 +1694,26 @@ namespace nonstd {
                 }
                 return *this;
             }
-#        else
+#        endif // variant_CPP11_OR_GREATER
+
             template <class T, std::size_t K>
             variant& copy_assign_value(T const& value) {
                 if (index() == K) {
                     *as<T>() = value;
                 } else {
+                    T copy(value);
                     helper_type::destroy(type_index, ptr());
                     type_index = variant_npos_internal();
-                    new (ptr()) T(value);
+#        if variant_CPP11_OR_GREATER
+                    new (ptr()) T(std::move(copy));
+#        else
+                    new (ptr()) T(copy);
+#        endif
                     type_index = K;
                 }
                 return *this;
             }
 
-#        endif // variant_CPP11_OR_GREATER
-
             void swap_value(std::size_t index, variant& other) {
                 using std::swap;
                 switch (index) {
-- 
2.43.0


From 96df18b7984ebab6503b4f2f127cbdb198d825bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:30:52 +0000
Subject: [PATCH 90/96] fix: constructing an expected from a value lets an
 exception of the copy out

---
 include/edsp/thirdparty/nonstd/expected.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/expected.hpp b/include/edsp/thirdparty/nonstd/expected.hpp
index 102b7ac..f40ce3c 100644
--- a/include/edsp/thirdparty/nonstd/expected.hpp
+++ b/include/edsp/thirdparty/nonstd/expected.hpp
@@ -853,8 +853,8 @@ namespace nonstd {
                 !std::is_same<expected<T, E>, typename std20::remove_cvref<U>::type>::value &&
                 !std::is_same<nonstd::unexpected_type<E>, typename std20::remove_cvref<U>::type>::value &&
                 !std::is_convertible<U&&, T>::value /*=> explicit */
-                )) noexcept(std::is_nothrow_move_constructible<U>::value&&
-                                std::is_nothrow_move_constructible<E>::value) :
+                )) noexcept(std::is_nothrow_constructible<T, U&&>::value&&
+                                std::is_nothrow_move_constructible<T>::value) :
                 has_value_(true) {
                 contained.construct_value(std::forward<U>(value));
             }
@@ -866,8 +866,8 @@ namespace nonstd {
                 !std::is_same<expected<T, E>, typename std20::remove_cvref<U>::type>::value &&
                 !std::is_same<nonstd::unexpected_type<E>, typename std20::remove_cvref<U>::type>::value &&
                 std::is_convertible<U&&, T>::value /*=> non-explicit */
-                )) noexcept(std::is_nothrow_move_constructible<U>::value&&
-                                std::is_nothrow_move_constructible<E>::value) :
+                )) noexcept(std::is_nothrow_constructible<T, U&&>::value&&
+                                std::is_nothrow_move_constructible<T>::value) :
                 has_value_(true) {
                 contained.construct_value(std::forward<U>(value));
             }
-- 
2.43.0


From 5e288395083d191333b11be748cceb10d3ac9386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:30 +0000
Subject: [PATCH 91/96] fix: expecteds with different errors are not equal

---
 include/edsp/thirdparty/nonstd/expected.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/thirdparty/nonstd/expected.hpp b/include/edsp/thirdparty/nonstd/expected.hpp
index f40ce3c..df34000 100644
--- a/include/edsp/thirdparty/nonstd/expected.hpp
+++ b/include/edsp/thirdparty/nonstd/expected.hpp
@@ -1353,7 +1353,7 @@ namespace nonstd {
 
         template <typename T, typename E>
         constexpr bool operator==(expected<T, E> const& x, expected<T, E> const& y) {
-            return bool(x) != bool(y) ? false : bool(x) == false ? true : *x == *y;
+            return bool(x) != bool(y) ? false : bool(x) == false ? x.error() == y.error() : *x == *y;
         }
 
         template <typename T, typename E>
-- 
2.43.0


From 5b899189cf4153f87e3cf8b93be8de76e548d903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:30 +0000
Subject: [PATCH 92/96] fix: comparing an expected with an error does not copy
 its own

---
 include/edsp/thirdparty/nonstd/expected.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/thirdparty/nonstd/expected.hpp b/include/edsp/thirdparty/nonstd/expected.hpp
index df34000..1450dc6 100644
--- a/include/edsp/thirdparty/nonstd/expected.hpp
+++ b/include/edsp/thirdparty/nonstd/expected.hpp
@@ -1385,7 +1385,7 @@ namespace nonstd {
 
         template <typename T, typename E>
         constexpr bool operator==(expected<T, E> const& x, unexpected_type<E> const& u) {
-            return (!x) ? x.get_unexpected() == u : false;
+            return (!x) ? x.error() == u.value() : false;
         }
 
         template <typename T, typename E>
-- 
2.43.0


From b3e34bee1574a068e85b8dc8c0c8788b56bba603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:30 +0000
Subject: [PATCH 93/96] fix: a value is greater than an expected without one

---
 include/edsp/thirdparty/nonstd/expected.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/thirdparty/nonstd/expected.hpp b/include/edsp/thirdparty/nonstd/expected.hpp
index 1450dc6..7de72da 100644
--- a/include/edsp/thirdparty/nonstd/expected.hpp
+++ b/include/edsp/thirdparty/nonstd/expected.hpp
@@ -1481,7 +1481,7 @@ namespace nonstd {
 
         template <typename T, typename E>
         constexpr bool operator>(T const& v, expected<T, E> const& x) {
-            return bool(x) ? *x < v : false;
+            return bool(x) ? *x < v : true;
         }
 
         template <typename T, typename E>
-- 
2.43.0


From 61a5c38bc895dcfb009ff69ebd95981fee0a4ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:27 +0000
Subject: [PATCH 94/96] fix: make_unexpected moves from a temporary

---
 include/edsp/thirdparty/nonstd/expected.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/edsp/thirdparty/nonstd/expected.hpp b/include/edsp/thirdparty/nonstd/expected.hpp
index 7de72da..5127a5b 100644
--- a/include/edsp/thirdparty/nonstd/expected.hpp
+++ b/include/edsp/thirdparty/nonstd/expected.hpp
@@ -616,7 +616,7 @@ namespace nonstd {
 
         template <typename E>
         nsel_constexpr14 auto make_unexpected(E&& value) -> unexpected_type<typename std::decay<E>::type> {
-            return unexpected_type<typename std::decay<E>::type>(value);
+            return unexpected_type<typename std::decay<E>::type>(std::forward<E>(value));
         }
 
 #    if nsel_P0323R <= 3
-- 
2.43.0


From 78705b9d086685ec33270ea94c7dfb4e8a0204cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:38:27 +0000
Subject: [PATCH 95/96] fix: an unexpected can be made from one of another type

---
 include/edsp/thirdparty/nonstd/expected.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/edsp/thirdparty/nonstd/expected.hpp b/include/edsp/thirdparty/nonstd/expected.hpp
index 5127a5b..09ee5eb 100644
--- a/include/edsp/thirdparty/nonstd/expected.hpp
+++ b/include/edsp/thirdparty/nonstd/expected.hpp
@@ -444,23 +444,23 @@ namespace nonstd {
             constexpr explicit unexpected_type(unexpected_type<E2> const& error nsel_REQUIRES_A(
                 std::is_constructible<E, E2 const&>::value &&
                 !std::is_convertible<E2 const&, E>::value /*=> explicit */)) :
-                m_error(error) {}
+                m_error(error.value()) {}
 
             template <typename E2>
             constexpr /*non-explicit*/ unexpected_type(unexpected_type<E2> const& error nsel_REQUIRES_A(
                 std::is_constructible<E, E2 const&>::value&&
                     std::is_convertible<E2 const&, E>::value /*=> non-explicit */)) :
-                m_error(error) {}
+                m_error(error.value()) {}
 
             template <typename E2>
             constexpr explicit unexpected_type(unexpected_type<E2>&& error nsel_REQUIRES_A(
                 std::is_constructible<E, E2&&>::value && !std::is_convertible<E2&&, E>::value /*=> explicit */)) :
-                m_error(error) {}
+                m_error(std::move(error.value())) {}
 
             template <typename E2>
             constexpr /*non-explicit*/ unexpected_type(unexpected_type<E2>&& error nsel_REQUIRES_A(
                 std::is_constructible<E, E2&&>::value&& std::is_convertible<E2&&, E>::value /*=> non-explicit */)) :
-                m_error(error) {}
+                m_error(std::move(error.value())) {}
 
             nsel_constexpr14 E& value() & noexcept {
                 return m_error;
-- 
2.43.0


From 2b1fa4f330178b53af68c6f6a525a77a77c29401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:00:56 +0000
Subject: [PATCH 96/96] fix: transforms can be planned from several threads

---
 .../edsp/spectral/internal/libfftw_impl.hpp   | 53 ++++++++++++-------
 1 file changed, 33 insertions(+), 20 deletions(-)

diff --git a/include/edsp/spectral/internal/libfftw_impl.hpp b/include/edsp/spectral/internal/libfftw_impl.hpp
index 31af931..062782f 100644
--- a/include/edsp/spectral/internal/libfftw_impl.hpp
+++ b/include/edsp/spectral/internal/libfftw_impl.hpp
@@ -32,6 +32,7 @@
 #include <complex>
 #include <fftw3.h>
 #include <algorithm>
+#include <mutex>
 
 namespace edsp { inline namespace spectral {
     namespace internal {
@@ -47,6 +48,12 @@ namespace edsp { inline namespace spectral {
         inline fftw_complex* fftw_cast(const std::complex<double>* p) {
             return const_cast<fftw_complex*>(reinterpret_cast<const fftw_complex*>(p));
         }
+
+        // only the execution of plans may run in several threads at once
+        inline std::mutex& fftw_planner() {
+            static std::mutex planner;
+            return planner;
+        }
     } // namespace internal
 
     template <typename T>
@@ -63,18 +70,19 @@ namespace edsp { inline namespace spectral {
         fftw_impl& operator=(const fftw_impl&) = delete;
 
         ~fftw_impl() {
+            const std::lock_guard<std::mutex> planning(internal::fftw_planner());
             release();
         }
 
         inline void dft(const complex_type* src, complex_type* dst) {
-            if (!prepared(transform::forward, src, dst))
+            if (const auto planning = unprepared(transform::forward, src, dst))
                 plan_ = fftwf_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_FORWARD,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             fftwf_execute_dft(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, complex_type* dst) {
-            if (!prepared(transform::backward, src, dst)) {
+            if (const auto planning = unprepared(transform::backward, src, dst)) {
                 plan_ = fftwf_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_BACKWARD,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -82,7 +90,7 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void dft(const value_type* src, complex_type* dst) {
-            if (!prepared(transform::real_forward, src, dst)) {
+            if (const auto planning = unprepared(transform::real_forward, src, dst)) {
                 plan_ = fftwf_plan_dft_r2c_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                               FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -90,7 +98,7 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void idft(const complex_type* src, value_type* dst) {
-            if (!prepared(transform::real_backward, src, dst)) {
+            if (const auto planning = unprepared(transform::real_backward, src, dst)) {
                 plan_ = fftwf_plan_dft_c2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                               FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -98,7 +106,7 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void dht(const value_type* src, value_type* dst) {
-            if (!prepared(transform::hartley, src, dst)) {
+            if (const auto planning = unprepared(transform::hartley, src, dst)) {
                 plan_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_DHT,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -106,7 +114,7 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void dct(const value_type* src, value_type* dst) {
-            if (!prepared(transform::cosine, src, dst)) {
+            if (const auto planning = unprepared(transform::cosine, src, dst)) {
                 plan_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT10,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -114,7 +122,7 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void idct(const value_type* src, value_type* dst) {
-            if (!prepared(transform::inverse_cosine, src, dst)) {
+            if (const auto planning = unprepared(transform::inverse_cosine, src, dst)) {
                 plan_ = fftwf_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT01,
                                           FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -153,20 +161,22 @@ namespace edsp { inline namespace spectral {
         }
 
         // a plan serves one kind of transform and arrays which coincide and are aligned as those it was made for
-        inline bool prepared(transform kind, const void* src, const void* dst) {
+        // when there is none, gives the planner to the caller
+        inline std::unique_lock<std::mutex> unprepared(transform kind, const void* src, const void* dst) {
             const auto in_place      = src == dst;
             const auto src_alignment = fftwf_alignment_of(static_cast<value_type*>(const_cast<void*>(src)));
             const auto dst_alignment = fftwf_alignment_of(static_cast<value_type*>(const_cast<void*>(dst)));
             if (!meta::is_null(plan_) && kind_ == kind && in_place_ == in_place && src_alignment_ == src_alignment &&
                 dst_alignment_ == dst_alignment) {
-                return true;
+                return {};
             }
+            std::unique_lock<std::mutex> planning(internal::fftw_planner());
             release();
             kind_          = kind;
             in_place_      = in_place;
             src_alignment_ = src_alignment;
             dst_alignment_ = dst_alignment;
-            return false;
+            return planning;
         }
 
         ::fftwf_plan plan_{nullptr};
@@ -188,39 +198,40 @@ namespace edsp { inline namespace spectral {
         fftw_impl& operator=(const fftw_impl&) = delete;
 
         ~fftw_impl() {
+            const std::lock_guard<std::mutex> planning(internal::fftw_planner());
             release();
         }
 
         inline void dft(const complex_type* src, complex_type* dst) {
-            if (!prepared(transform::forward, src, dst))
+            if (const auto planning = unprepared(transform::forward, src, dst))
                 plan_ = fftw_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_FORWARD,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             fftw_execute_dft(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, complex_type* dst) {
-            if (!prepared(transform::backward, src, dst))
+            if (const auto planning = unprepared(transform::backward, src, dst))
                 plan_ = fftw_plan_dft_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_BACKWARD,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             fftw_execute_dft(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void dft(const value_type* src, complex_type* dst) {
-            if (!prepared(transform::real_forward, src, dst))
+            if (const auto planning = unprepared(transform::real_forward, src, dst))
                 plan_ = fftw_plan_dft_r2c_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                              FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             fftw_execute_dft_r2c(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void idft(const complex_type* src, value_type* dst) {
-            if (!prepared(transform::real_backward, src, dst))
+            if (const auto planning = unprepared(transform::real_backward, src, dst))
                 plan_ = fftw_plan_dft_c2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst),
                                              FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             fftw_execute_dft_c2r(plan_, internal::fftw_cast(src), internal::fftw_cast(dst));
         }
 
         inline void dht(const value_type* src, value_type* dst) {
-            if (!prepared(transform::hartley, src, dst)) {
+            if (const auto planning = unprepared(transform::hartley, src, dst)) {
                 plan_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_DHT,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -228,7 +239,7 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void dct(const value_type* src, value_type* dst) {
-            if (!prepared(transform::cosine, src, dst)) {
+            if (const auto planning = unprepared(transform::cosine, src, dst)) {
                 plan_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT10,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -236,7 +247,7 @@ namespace edsp { inline namespace spectral {
         }
 
         inline void idct(const value_type* src, value_type* dst) {
-            if (!prepared(transform::inverse_cosine, src, dst)) {
+            if (const auto planning = unprepared(transform::inverse_cosine, src, dst)) {
                 plan_ = fftw_plan_r2r_1d(nfft_, internal::fftw_cast(src), internal::fftw_cast(dst), FFTW_REDFT01,
                                          FFTW_ESTIMATE | FFTW_PRESERVE_INPUT);
             }
@@ -275,20 +286,22 @@ namespace edsp { inline namespace spectral {
         }
 
         // a plan serves one kind of transform and arrays which coincide and are aligned as those it was made for
-        inline bool prepared(transform kind, const void* src, const void* dst) {
+        // when there is none, gives the planner to the caller
+        inline std::unique_lock<std::mutex> unprepared(transform kind, const void* src, const void* dst) {
             const auto in_place      = src == dst;
             const auto src_alignment = fftw_alignment_of(static_cast<value_type*>(const_cast<void*>(src)));
             const auto dst_alignment = fftw_alignment_of(static_cast<value_type*>(const_cast<void*>(dst)));
             if (!meta::is_null(plan_) && kind_ == kind && in_place_ == in_place && src_alignment_ == src_alignment &&
                 dst_alignment_ == dst_alignment) {
-                return true;
+                return {};
             }
+            std::unique_lock<std::mutex> planning(internal::fftw_planner());
             release();
             kind_          = kind;
             in_place_      = in_place;
             src_alignment_ = src_alignment;
             dst_alignment_ = dst_alignment;
-            return false;
+            return planning;
         }
 
         ::fftw_plan plan_{nullptr};
-- 
2.43.0

