From acf86bfe0f22be33c27a3cb506988f7d902db143 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:49 +0000
Subject: [PATCH 01/35] fix: deliver mouse motion, left button release and
 cursor leave to their own handlers

---
 samples/pudding/src/pudding.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/samples/pudding/src/pudding.cpp b/samples/pudding/src/pudding.cpp
index 31266e3..1393e61 100644
--- a/samples/pudding/src/pudding.cpp
+++ b/samples/pudding/src/pudding.cpp
@@ -185,6 +185,7 @@ void pudding::start()
                     break;
                 }
                 p->second->on_mouse_motion(event.motion.x, event.motion.y);
+                break;
             }
             case SDL_MOUSEBUTTONDOWN: {
                 auto p = puddings.find(event.button.windowID);
@@ -217,7 +218,7 @@ void pudding::start()
                 switch (event.button.button)
                 {
                     case SDL_BUTTON_LEFT:
-                        p->second->on_mouse_up_right(event.button.x, event.button.y);
+                        p->second->on_mouse_up_left(event.button.x, event.button.y);
                         break;
                     case SDL_BUTTON_MIDDLE:
                         p->second->on_mouse_up_middle(event.button.x, event.button.y);
@@ -293,7 +294,7 @@ void pudding::start()
                     w.on_enter();
                     break;
                 case SDL_WINDOWEVENT_LEAVE:
-                    w.on_enter();
+                    w.on_leave();
                     break;
                 case SDL_WINDOWEVENT_FOCUS_GAINED:
                     w.on_focus_gained();
-- 
2.43.0


From 9899560204313d493f2bef55afe8b0b0a73a525b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:49 +0000
Subject: [PATCH 02/35] fix: measure a key press from its first event and do
 not use timestamp 0 as released

---
 samples/pudding/src/pudding.cpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/samples/pudding/src/pudding.cpp b/samples/pudding/src/pudding.cpp
index 1393e61..0c48385 100644
--- a/samples/pudding/src/pudding.cpp
+++ b/samples/pudding/src/pudding.cpp
@@ -14,7 +14,7 @@ using namespace pd;
 using window_id = uint32_t;
 
 static std::unordered_map<window_id, pudding*> puddings;
-// Timestamp in milliseconds when the key is pressed. 0 if released.
+// Timestamp in milliseconds when the key was pressed. A key that is not held has no entry.
 static std::unordered_map<SDL_Keycode, uint32_t> key_states;
 
 using namespace pd;
@@ -63,7 +63,7 @@ pudding::~pudding()
 
 bool pudding::is_key_down(int key) const
 {
-    return key_states[key] != 0;
+    return key_states.count(key) != 0;
 }
 
 bool pudding::is_left_mouse_button_down() const
@@ -157,7 +157,8 @@ void pudding::start()
                 }
                 return;
             case SDL_KEYDOWN: {
-                key_states[event.key.keysym.sym] = event.key.timestamp;
+                // A key that is held repeats. The press began with the first event.
+                key_states.emplace(event.key.keysym.sym, event.key.timestamp);
                 auto p = puddings.find(event.key.windowID);
                 if (p == puddings.end())
                 {
@@ -167,9 +168,13 @@ void pudding::start()
                 break;
             }
             case SDL_KEYUP: {
-                auto& timestamp = key_states[event.key.keysym.sym];
-                auto duration_ms = event.key.timestamp - timestamp;
-                timestamp = 0u;
+                auto state = key_states.find(event.key.keysym.sym);
+                uint32_t duration_ms = 0;
+                if (state != key_states.end())
+                {
+                    duration_ms = event.key.timestamp - state->second;
+                    key_states.erase(state);
+                }
                 auto p = puddings.find(event.key.windowID);
                 if (p == puddings.end())
                 {
-- 
2.43.0


From a5f7bacc1b3a1df6714737cf2004d2cae27c10dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:58 +0000
Subject: [PATCH 03/35] fix: reclaim a frame's garbage only after its fences
 have been waited for

---
 samples/pudding/src/pudding.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/samples/pudding/src/pudding.cpp b/samples/pudding/src/pudding.cpp
index 0c48385..063c405 100644
--- a/samples/pudding/src/pudding.cpp
+++ b/samples/pudding/src/pudding.cpp
@@ -96,7 +96,6 @@ static void advance_frame()
 {
     ++context.frame_index;
     auto& frame = vk_current_frame();
-    frame.garbage.flush();
     bool reset_general = frame.general.active && frame.general.dirty;
     bool reset_dma = frame.dma.active && frame.dma.dirty;
     bool reset_compute = frame.compute.active && frame.compute.dirty;
@@ -117,8 +116,14 @@ static void advance_frame()
         fences[fence_count++] = frame.compute.fence;
         frame.compute.dirty = false;
     }
-    vkWaitForFences(vk_device, fence_count, fences, VK_TRUE, std::numeric_limits<uint64_t>::max());
-    vkResetFences(vk_device, fence_count, fences);
+    if (fence_count != 0)
+    {
+        vkWaitForFences(vk_device, fence_count, fences, VK_TRUE, std::numeric_limits<uint64_t>::max());
+        vkResetFences(vk_device, fence_count, fences);
+    }
+
+    // Only reclaim objects once the GPU is done with the work that was recorded when they were disposed
+    frame.garbage.flush();
 
     if (reset_general)
     {
-- 
2.43.0


From 42d8841aff0e56aedf775b9b8064ea376aa2bb80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:18 +0000
Subject: [PATCH 04/35] fix: create frame fences unsignaled, the first
 submission of a frame used a signaled fence

---
 samples/pudding/src/renderer.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/samples/pudding/src/renderer.cpp b/samples/pudding/src/renderer.cpp
index c9d0033..33db98a 100644
--- a/samples/pudding/src/renderer.cpp
+++ b/samples/pudding/src/renderer.cpp
@@ -374,8 +374,8 @@ void renderer::init_device(uint32_t index)
             // https://www.khronos.org/registry/vulkan/specs/1.1-extensions/man/html/VkFenceCreateInfo.html
             VkFenceCreateInfo general_fence_info{};
             general_fence_info.sType = VK_STRUCTURE_TYPE_FENCE_CREATE_INFO;
-            // Create fences in an initially signaled state as they are always awaited at the start of the frame
-            general_fence_info.flags = VK_FENCE_CREATE_SIGNALED_BIT;
+            // A fence is only awaited (and reset) at the start of the frame if it was submitted, so it starts unsignaled
+            general_fence_info.flags = 0;
             vkCreateFence(context.device, &general_fence_info, nullptr, &frame_context.general.fence);
 
             if (queues_used > 1)
@@ -390,7 +390,7 @@ void renderer::init_device(uint32_t index)
 
                 VkFenceCreateInfo dma_fence_info{};
                 dma_fence_info.sType = VK_STRUCTURE_TYPE_FENCE_CREATE_INFO;
-                dma_fence_info.flags = VK_FENCE_CREATE_SIGNALED_BIT;
+                dma_fence_info.flags = 0;
                 vkCreateFence(context.device, &dma_fence_info, nullptr, &frame_context.dma.fence);
             }
 
@@ -405,7 +405,7 @@ void renderer::init_device(uint32_t index)
 
                 VkFenceCreateInfo compute_fence_info{};
                 compute_fence_info.sType = VK_STRUCTURE_TYPE_FENCE_CREATE_INFO;
-                compute_fence_info.flags = VK_FENCE_CREATE_SIGNALED_BIT;
+                compute_fence_info.flags = 0;
                 vkCreateFence(context.device, &compute_fence_info, nullptr, &frame_context.compute.fence);
             }
         }
-- 
2.43.0


From 84d31c2d2a1e9b43d6806f0a9e6c0eff4b0aaa26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:53 +0000
Subject: [PATCH 05/35] fix: do not submit pointers into arrays that grew while
 further windows were recorded

---
 samples/pudding/src/pudding.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/samples/pudding/src/pudding.cpp b/samples/pudding/src/pudding.cpp
index 063c405..9e60ee6 100644
--- a/samples/pudding/src/pudding.cpp
+++ b/samples/pudding/src/pudding.cpp
@@ -356,18 +356,22 @@ void pudding::start()
                 VkSubmitInfo submit{};
                 submit.sType                = VK_STRUCTURE_TYPE_SUBMIT_INFO;
                 submit.waitSemaphoreCount   = 1;
-                submit.pWaitSemaphores      = &waits.back();
-                submit.pWaitDstStageMask    = &wait_stages.back();
                 submit.commandBufferCount   = 1;
-                submit.pCommandBuffers      = &cbs.back();
                 submit.signalSemaphoreCount = 1;
-                submit.pSignalSemaphores    = &signals.back();
                 submits.emplace_back(submit);
             }
         }
 
         if (!submits.empty())
         {
+            // The arrays below may have been reallocated with each additional window so they are only referenced here
+            for (size_t i = 0; i != submits.size(); ++i)
+            {
+                submits[i].pWaitSemaphores   = &waits[i];
+                submits[i].pWaitDstStageMask = &wait_stages[i];
+                submits[i].pCommandBuffers   = &cbs[i];
+                submits[i].pSignalSemaphores = &signals[i];
+            }
             vkQueueSubmit(context.general.q, static_cast<uint32_t>(submits.size()), submits.data(), frame.general.fence);
             frame.general.dirty = true;
         }
-- 
2.43.0


From e3001bd0af577fc708102389bc4f7870afdf98a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:53 +0000
Subject: [PATCH 06/35] fix: pick the acquire semaphore by frame context,
 frame_index % 3 is discontinuous when the index wraps

---
 samples/pudding/src/swapchain.cpp | 4 +++-
 samples/pudding/src/swapchain.hpp | 2 +-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/samples/pudding/src/swapchain.cpp b/samples/pudding/src/swapchain.cpp
index bcb41b0..ad53cec 100644
--- a/samples/pudding/src/swapchain.cpp
+++ b/samples/pudding/src/swapchain.cpp
@@ -252,7 +252,9 @@ void swapchain::create()
 
 std::optional<std::pair<pd::render_target const&, VkSemaphore>> swapchain::acquire()
 {
-    uint8_t frame_index = context.frame_index % 3;
+    // The frame index wraps around, so it can only be taken modulo the frame count: at that point, the GPU is done with
+    // the submission that waited on this semaphore last
+    uint8_t frame_index = context.frame_index % frame_context_count;
     VkResult result = vkAcquireNextImageKHR(vk_device,
                                             swapchain_,
                                             std::numeric_limits<uint64_t>::max(),
diff --git a/samples/pudding/src/swapchain.hpp b/samples/pudding/src/swapchain.hpp
index 6027356..7684a6a 100644
--- a/samples/pudding/src/swapchain.hpp
+++ b/samples/pudding/src/swapchain.hpp
@@ -29,7 +29,7 @@ private:
     VkSurfaceKHR surface_;
     VkSurfaceFormatKHR format_;
     VkPresentModeKHR mode_;
-    std::array<VkSemaphore, 3> acquire_sems_;
+    std::array<VkSemaphore, frame_context_count> acquire_sems_;
     std::array<VkImage, 3> images_;
     std::array<pd::image_view, 3> views_;
     std::array<pd::render_target, 3> rts_;
-- 
2.43.0


From 6708dddba38f01fbfcc7c620462a1e61c3514106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:53 +0000
Subject: [PATCH 07/35] fix: render to and present a suboptimal swapchain image
 instead of abandoning it

---
 samples/pudding/src/swapchain.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/samples/pudding/src/swapchain.cpp b/samples/pudding/src/swapchain.cpp
index ad53cec..071528c 100644
--- a/samples/pudding/src/swapchain.cpp
+++ b/samples/pudding/src/swapchain.cpp
@@ -264,10 +264,11 @@ std::optional<std::pair<pd::render_target const&, VkSemaphore>> swapchain::acqui
     switch (result)
     {
     case VK_SUCCESS:
-        return {{rts_[active_index_], acquire_sems_[frame_index]}};
-    case VK_ERROR_OUT_OF_DATE_KHR:
         [[fallthrough]];
     case VK_SUBOPTIMAL_KHR:
+        // A suboptimal image is acquired all the same (and its semaphore signaled). Presenting it recreates the swapchain
+        return {{rts_[active_index_], acquire_sems_[frame_index]}};
+    case VK_ERROR_OUT_OF_DATE_KHR:
         // Swapchain is out of date and needs to be recreated
         create();
 
-- 
2.43.0


From 836cbf7e3271b7149d08c8efd8b205ba15f01aea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:53 +0000
Subject: [PATCH 08/35] fix: use the result of vkQueuePresentKHR, pResults is
 not written when the call itself fails

---
 samples/pudding/src/swapchain.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/samples/pudding/src/swapchain.cpp b/samples/pudding/src/swapchain.cpp
index 071528c..fc315e7 100644
--- a/samples/pudding/src/swapchain.cpp
+++ b/samples/pudding/src/swapchain.cpp
@@ -282,7 +282,6 @@ std::optional<std::pair<pd::render_target const&, VkSemaphore>> swapchain::acqui
 
 void swapchain::present(VkSemaphore signal)
 {
-    VkResult result;
     VkPresentInfoKHR present_info{};
     present_info.sType              = VK_STRUCTURE_TYPE_PRESENT_INFO_KHR;
     present_info.waitSemaphoreCount = 1;
@@ -290,8 +289,7 @@ void swapchain::present(VkSemaphore signal)
     present_info.swapchainCount     = 1;
     present_info.pSwapchains        = &swapchain_;
     present_info.pImageIndices      = &active_index_;
-    present_info.pResults           = &result;
-    vkQueuePresentKHR(context.general.q, &present_info);
+    VkResult result = vkQueuePresentKHR(context.general.q, &present_info);
 
     switch (result)
     {
-- 
2.43.0


From 514630652f4af5c7defcce7daddc4eb88c26a451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:53 +0000
Subject: [PATCH 09/35] fix: allow windows to be destroyed by on_quit handlers

---
 samples/pudding/src/pudding.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/samples/pudding/src/pudding.cpp b/samples/pudding/src/pudding.cpp
index 9e60ee6..1e0bb7e 100644
--- a/samples/pudding/src/pudding.cpp
+++ b/samples/pudding/src/pudding.cpp
@@ -155,12 +155,23 @@ void pudding::start()
         {
             switch (event.type)
             {
-            case SDL_QUIT:
+            case SDL_QUIT: {
+                // Handlers may destroy windows
+                std::vector<window_id> ids;
                 for (auto&& p : puddings)
                 {
-                    p.second->on_quit();
+                    ids.emplace_back(p.first);
+                }
+                for (auto id : ids)
+                {
+                    auto p = puddings.find(id);
+                    if (p != puddings.end())
+                    {
+                        p->second->on_quit();
+                    }
                 }
                 return;
+            }
             case SDL_KEYDOWN: {
                 // A key that is held repeats. The press began with the first event.
                 key_states.emplace(event.key.keysym.sym, event.key.timestamp);
-- 
2.43.0


From c2f0a57d29e2574b3f5a094fee316a303c28f4b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:53 +0000
Subject: [PATCH 10/35] fix: do not abort Vulkan calls a validation layer has a
 message about

---
 samples/pudding/src/renderer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/samples/pudding/src/renderer.cpp b/samples/pudding/src/renderer.cpp
index 33db98a..8065048 100644
--- a/samples/pudding/src/renderer.cpp
+++ b/samples/pudding/src/renderer.cpp
@@ -36,7 +36,8 @@ VkBool32 VKAPI_PTR debug_utils_messenger(VkDebugUtilsMessageSeverityFlagBitsEXT
         DEBUG("[VK] {}", data->pMessage);
         break;
     }
-    return VK_TRUE;
+    // Returning VK_TRUE would abort the call that triggered this message
+    return VK_FALSE;
 }
 
 renderer::renderer(desc d)
-- 
2.43.0


From 48b863b45c56ee1ea1554ab75cd83c3d05a77451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:53 +0000
Subject: [PATCH 11/35] fix: select the default device by priority and without
 overwriting the device list

---
 samples/pudding/src/renderer.cpp | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/samples/pudding/src/renderer.cpp b/samples/pudding/src/renderer.cpp
index 8065048..0a088cb 100644
--- a/samples/pudding/src/renderer.cpp
+++ b/samples/pudding/src/renderer.cpp
@@ -3,6 +3,7 @@
 #include <SDL.h>
 #include <SDL_vulkan.h>
 #include <stdexcept>
+#include <tuple>
 #include <vector>
 #include <vulkan/vulkan.h>
 
@@ -196,23 +197,19 @@ void renderer::init_default_device()
     // Not a particularly clever heuristic, but should suffice in many cases
     uint32_t candidate = 0;
     // NOTE: we're guaranteed to have at least 1 suitable device at this point
-    device& candidate_device = devices_[candidate];
+    // In order of importance: gfx enabled devices, discrete devices, devices with more vram
+    // TODO insert other heuristics here
+    auto rank = [](device const& dev) { return std::make_tuple(dev.gfx_enabled, dev.discrete, dev.vram_bytes); };
 
     for (uint32_t i = 1; i != devices_.size(); ++i)
     {
-        device& dev = devices_[i];
-        if ((!candidate_device.gfx_enabled && dev.gfx_enabled)    // Prioritize gfx enabled devices
-            || (!candidate_device.discrete && dev.discrete) // Prioritize discrete devices
-            || (candidate_device.vram_bytes < dev.vram_bytes)       // Prioritize devices with more vram
-            // TODO insert other heuristics here
-        )
+        if (rank(devices_[candidate]) < rank(devices_[i]))
         {
             candidate = i;
-            candidate_device = dev;
         }
     }
 
-    INFO("Device selected: {}", candidate_device.to_string());
+    INFO("Device selected: {}", devices_[candidate].to_string());
     init_device(candidate);
 }
 
-- 
2.43.0


From fc8e24e954dddb67598ab4520f4e1cfec3bebc39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:53 +0000
Subject: [PATCH 12/35] fix: never request the async compute queue family as
 DMA family as well

---
 samples/pudding/src/renderer.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/samples/pudding/src/renderer.cpp b/samples/pudding/src/renderer.cpp
index 0a088cb..a16df83 100644
--- a/samples/pudding/src/renderer.cpp
+++ b/samples/pudding/src/renderer.cpp
@@ -282,7 +282,9 @@ void renderer::init_device(uint32_t index)
         for (uint32_t i = 0; i != queue_families.size(); ++i)
         {
             auto& family = queue_families[i];
-            if (family.queueFlags & VK_QUEUE_TRANSFER_BIT && !(family.queueFlags & VK_QUEUE_GRAPHICS_BIT))
+            // A family with compute support is not dedicated to transfers (and may be the async compute family below)
+            if (family.queueFlags & VK_QUEUE_TRANSFER_BIT
+                && !(family.queueFlags & (VK_QUEUE_GRAPHICS_BIT | VK_QUEUE_COMPUTE_BIT)))
             {
                 dma_family_index = i;
                 auto& queue_info = queue_infos[device_info.queueCreateInfoCount++];
-- 
2.43.0


From ae7d1396c47c2d528e5325354933d7a735e49385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:12 +0000
Subject: [PATCH 13/35] fix: consume the render target stack when a render pass
 begins

---
 samples/pudding/src/cmd_stream.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/samples/pudding/src/cmd_stream.cpp b/samples/pudding/src/cmd_stream.cpp
index 3579886..d1a9935 100644
--- a/samples/pudding/src/cmd_stream.cpp
+++ b/samples/pudding/src/cmd_stream.cpp
@@ -229,6 +229,9 @@ void cmd_stream::begin_render_pass()
     rp_info.framebuffer = framebuffer;
 
     vkCmdBeginRenderPass(static_cast<VkCommandBuffer>(cb_), &rp_info, VK_SUBPASS_CONTENTS_INLINE);
+
+    // The render target stack is consumed by this pass
+    rts_.clear();
 }
 
 void cmd_stream::end_render_pass()
-- 
2.43.0


From 824c6fc47161b86c14aca2c5b31436aa83702fed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:12 +0000
Subject: [PATCH 14/35] fix: pass one clear value per attachment, they were
 shifted by targets that are not cleared

---
 samples/pudding/src/cmd_stream.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/samples/pudding/src/cmd_stream.cpp b/samples/pudding/src/cmd_stream.cpp
index d1a9935..6d7e71b 100644
--- a/samples/pudding/src/cmd_stream.cpp
+++ b/samples/pudding/src/cmd_stream.cpp
@@ -196,12 +196,13 @@ void cmd_stream::begin_render_pass()
 
     VkFramebuffer framebuffer = fb->second;
 
+    // Clear values are indexed by attachment. The entries of attachments that are not cleared are ignored.
     std::vector<VkClearValue> clear_values;
     for (auto* rt : rts_)
     {
+        VkClearValue cv{};
         if (rt->clear)
         {
-            VkClearValue cv;
             if (rt->depth || rt->stencil)
             {
                 cv.depthStencil
@@ -212,8 +213,8 @@ void cmd_stream::begin_render_pass()
                 cv.color
                     = VkClearColorValue{rt->clear_value[0], rt->clear_value[1], rt->clear_value[2], rt->clear_value[3]};
             }
-            clear_values.emplace_back(cv);
         }
+        clear_values.emplace_back(cv);
     }
 
     // We now have the necessary framebuffer and renderpass to render to. Let's start the render pass.
-- 
2.43.0


From 58530ddcdfb616184e152f967a46eb5da8ad90f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:53 +0000
Subject: [PATCH 15/35] fix: do not confuse cached render passes and
 framebuffers of different sets of render targets

The keys were combined with an order-independent xor, so different sets (and different orders of
the same set) collided.
---
 samples/pudding/src/cmd_stream.cpp | 24 +++++++++---------------
 samples/pudding/src/context.hpp    |  6 +++---
 2 files changed, 12 insertions(+), 18 deletions(-)

diff --git a/samples/pudding/src/cmd_stream.cpp b/samples/pudding/src/cmd_stream.cpp
index 6d7e71b..cdbb0ef 100644
--- a/samples/pudding/src/cmd_stream.cpp
+++ b/samples/pudding/src/cmd_stream.cpp
@@ -26,16 +26,16 @@ void cmd_stream::begin_render_pass()
     ENSURE(!rts_.empty(), "Attempting to invoke a render pass with no render targets");
     // First, determine if we've already encountered this set of render targets and retrieve it if so
 
-    // The hash combining algorithm below is simple and order-independent.
-    unique_id::hash_t rp_hash{};
-    unique_id::hash_t fb_hash{};
+    // The order in which the render targets were pushed matters
+    std::vector<unique_id::hash_t> rp_key;
+    std::vector<VkImageView> views;
     for (auto const* rt : rts_)
     {
-        rp_hash ^= rt->uid.hash;
-        fb_hash ^= rt->iv->hash();
+        rp_key.emplace_back(rt->uid.hash);
+        views.emplace_back(static_cast<VkImageView>(rt->iv->handle()));
     }
 
-    auto rp = vk_objects.render_passes.find(rp_hash);
+    auto rp = vk_objects.render_passes.find(rp_key);
     if (rp == vk_objects.render_passes.end())
     {
         // Create a render pass
@@ -161,23 +161,17 @@ void cmd_stream::begin_render_pass()
         pass_info.pDependencies = &dep;
         VkRenderPass render_pass;
         ENSURE(vkCreateRenderPass(vk_device, &pass_info, vk_ac, &render_pass), "Failed to create vulkan render pass");
-        rp = vk_objects.render_passes.emplace(std::make_pair(rp_hash, render_pass)).first;
+        rp = vk_objects.render_passes.emplace(std::make_pair(rp_key, render_pass)).first;
     }
 
     VkRenderPass render_pass = rp->second;
 
-    auto fb = vk_objects.framebuffers.find(fb_hash);
+    auto fb = vk_objects.framebuffers.find(views);
     if (fb == vk_objects.framebuffers.end())
     {
         // This set of render targets has not been used before (or it was reclaimed due to misuse). Create the
         // corresponding framebuffer.
 
-        std::vector<VkImageView> views;
-        for (auto const* rt : rts_)
-        {
-            views.emplace_back(static_cast<VkImageView>(rt->iv->handle()));
-        }
-
         // https://www.khronos.org/registry/vulkan/specs/1.1-extensions/man/html/VkFramebufferCreateInfo.html
         VkFramebufferCreateInfo fb_info{};
         fb_info.sType           = VK_STRUCTURE_TYPE_FRAMEBUFFER_CREATE_INFO;
@@ -191,7 +185,7 @@ void cmd_stream::begin_render_pass()
 
         VkFramebuffer framebuffer;
         ENSURE(vkCreateFramebuffer(vk_device, &fb_info, vk_ac, &framebuffer), "Unable to create vulkan framebuffer");
-        fb = vk_objects.framebuffers.emplace(std::make_pair(fb_hash, framebuffer)).first;
+        fb = vk_objects.framebuffers.emplace(std::make_pair(views, framebuffer)).first;
     }
 
     VkFramebuffer framebuffer = fb->second;
diff --git a/samples/pudding/src/context.hpp b/samples/pudding/src/context.hpp
index 2e7d143..f578899 100644
--- a/samples/pudding/src/context.hpp
+++ b/samples/pudding/src/context.hpp
@@ -2,8 +2,8 @@
 
 #include <array>
 #include <detail/uid.hpp>
+#include <map>
 #include <memory>
-#include <unordered_map>
 #include <vector>
 #include <vk_mem_alloc.h>
 #include <vulkan/vulkan.h>
@@ -70,8 +70,8 @@ struct vk_context
     // Cached vulkan objects used in rendering
     struct
     {
-        std::unordered_map<unique_id::hash_t, VkRenderPass> render_passes;
-        std::unordered_map<unique_id::hash_t, VkFramebuffer> framebuffers;
+        std::map<std::vector<unique_id::hash_t>, VkRenderPass> render_passes;
+        std::map<std::vector<VkImageView>, VkFramebuffer> framebuffers;
     } objects;
 };
 
-- 
2.43.0


From 7aa7b53aa4a361e6045b8b4b5a1cfd890d08efc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:19:53 +0000
Subject: [PATCH 16/35] fix: evict and reclaim framebuffers together with their
 image views

They leaked and were found again in the cache when an identifier was reused.
---
 samples/pudding/src/gc.cpp | 23 +++++++++++++++++++++++
 samples/pudding/src/gc.hpp |  1 +
 2 files changed, 24 insertions(+)

diff --git a/samples/pudding/src/gc.cpp b/samples/pudding/src/gc.cpp
index 2f3223a..d493502 100644
--- a/samples/pudding/src/gc.cpp
+++ b/samples/pudding/src/gc.cpp
@@ -2,6 +2,8 @@
 
 #include "context.hpp"
 
+#include <algorithm>
+
 void gc::flush()
 {
     for (auto sc : swapchains_)
@@ -10,6 +12,12 @@ void gc::flush()
     }
     swapchains_.clear();
 
+    for (auto fb : framebuffers_)
+    {
+        vkDestroyFramebuffer(vk_device, fb, vk_ac);
+    }
+    framebuffers_.clear();
+
     for (auto iv : image_views_)
     {
         vkDestroyImageView(vk_device, iv, vk_ac);
@@ -25,4 +33,19 @@ void gc::dispose(VkSwapchainKHR sc)
 void gc::dispose(VkImageView iv)
 {
     image_views_.emplace_back(iv);
+
+    // Framebuffers do not outlive their views
+    auto& framebuffers = vk_objects.framebuffers;
+    for (auto it = framebuffers.begin(); it != framebuffers.end();)
+    {
+        if (std::find(it->first.begin(), it->first.end(), iv) != it->first.end())
+        {
+            framebuffers_.emplace_back(it->second);
+            it = framebuffers.erase(it);
+        }
+        else
+        {
+            ++it;
+        }
+    }
 }
\ No newline at end of file
diff --git a/samples/pudding/src/gc.hpp b/samples/pudding/src/gc.hpp
index e4bce7f..4307731 100644
--- a/samples/pudding/src/gc.hpp
+++ b/samples/pudding/src/gc.hpp
@@ -15,5 +15,6 @@ public:
 
 private:
     std::vector<VkSwapchainKHR> swapchains_;
+    std::vector<VkFramebuffer> framebuffers_;
     std::vector<VkImageView> image_views_;
 };
-- 
2.43.0


From d814f9b016bffaf68e0c8b43817e07d1d649408c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:17 +0000
Subject: [PATCH 17/35] fix: never reuse the hash of a released identifier

render_target::uid.reset() is documented to invalidate dependent render passes, but a later lease of
the same identifier found the stale pass again. The swapchain keeps the identity of its targets on
recreation, as their attributes do not change.
---
 samples/pudding/src/swapchain.cpp | 3 +++
 samples/pudding/src/uid.cpp       | 5 ++++-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/samples/pudding/src/swapchain.cpp b/samples/pudding/src/swapchain.cpp
index fc315e7..bc3adb1 100644
--- a/samples/pudding/src/swapchain.cpp
+++ b/samples/pudding/src/swapchain.cpp
@@ -232,6 +232,8 @@ void swapchain::create()
         ENSURE(vkCreateImageView(vk_device, &view_info, vk_ac, &view), "Unable to create swapchain image view");
 
         views_[i] = std::move(pd::image_view{static_cast<void*>(view), width_, height_});
+        // All attributes remain the same on recreation so the identity (and the render passes that go with it) is kept
+        auto uid  = std::move(rts_[i].uid);
         rts_[i]   = pd::render_target{
             &views_[i],                      // Image view
             "",                              // Debug name
@@ -247,6 +249,7 @@ void swapchain::create()
             false,                           // Load
             true                             // Store
         };
+        rts_[i].uid = std::move(uid);
     }
 }
 
diff --git a/samples/pudding/src/uid.cpp b/samples/pudding/src/uid.cpp
index da1402a..e15b162 100644
--- a/samples/pudding/src/uid.cpp
+++ b/samples/pudding/src/uid.cpp
@@ -8,6 +8,9 @@ using namespace pd::detail;
 // NOTE, the zero id is reserved
 static unique_id::id_t next = 1u;
 static std::vector<unique_id::id_t> free_ids;
+// Identifiers are leased again after they are released, hashes are not: objects cached on behalf of an earlier lease
+// are never mistaken for those of a later one
+static unique_id::hash_t next_hash = 1u;
 
 unique_id::unique_id()
 {
@@ -20,7 +23,7 @@ unique_id::unique_id()
         id = free_ids.back();
         free_ids.pop_back();
     }
-    hash = std::hash<id_t>{}(id);
+    hash = next_hash++;
 }
 
 unique_id::unique_id(unique_id&& other)
-- 
2.43.0


From 595b49f2662f196216839091e89348245562c14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:17 +0000
Subject: [PATCH 18/35] fix: pick surface formats and present modes that are
 available

The decision read uninitialized members, and immediate presentation was assumed to exist.
---
 samples/pudding/src/swapchain.cpp | 17 +++++++++++++++--
 samples/pudding/src/swapchain.hpp |  2 +-
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/samples/pudding/src/swapchain.cpp b/samples/pudding/src/swapchain.cpp
index bc3adb1..889ed8f 100644
--- a/samples/pudding/src/swapchain.cpp
+++ b/samples/pudding/src/swapchain.cpp
@@ -62,9 +62,11 @@ swapchain::swapchain(SDL_Window& window)
 
     // Check if the desired presentation mode is available
     VkPresentModeKHR desired = context.settings.vsync ? VK_PRESENT_MODE_FIFO_KHR : VK_PRESENT_MODE_MAILBOX_KHR;
+    bool desired_available = false;
     bool fifo_available = false;
     bool mailbox_available = false;
     bool relaxed_fifo_available = false;
+    bool immediate_available = false;
     for (auto const& mode : modes)
     {
         if (mode == VK_PRESENT_MODE_FIFO_KHR)
@@ -82,14 +84,20 @@ swapchain::swapchain(SDL_Window& window)
             relaxed_fifo_available = true;
         }
 
+        if (mode == VK_PRESENT_MODE_IMMEDIATE_KHR)
+        {
+            immediate_available = true;
+        }
+
         if (mode == desired)
         {
             // Found the mode we want
             mode_ = mode;
+            desired_available = true;
         }
     }
 
-    if (mode_ != desired)
+    if (!desired_available)
     {
         if (desired == VK_PRESENT_MODE_MAILBOX_KHR)
         {
@@ -98,10 +106,15 @@ swapchain::swapchain(SDL_Window& window)
             {
                 mode_ = VK_PRESENT_MODE_FIFO_RELAXED_KHR;
             }
-            else
+            else if (immediate_available)
             {
                 mode_ = VK_PRESENT_MODE_IMMEDIATE_KHR;
             }
+            else
+            {
+                // Always supported
+                mode_ = VK_PRESENT_MODE_FIFO_KHR;
+            }
         }
         else
         {
diff --git a/samples/pudding/src/swapchain.hpp b/samples/pudding/src/swapchain.hpp
index 7684a6a..c877c61 100644
--- a/samples/pudding/src/swapchain.hpp
+++ b/samples/pudding/src/swapchain.hpp
@@ -27,7 +27,7 @@ private:
     SDL_Window* window_;
     VkSwapchainKHR swapchain_ = VK_NULL_HANDLE;
     VkSurfaceKHR surface_;
-    VkSurfaceFormatKHR format_;
+    VkSurfaceFormatKHR format_{};
     VkPresentModeKHR mode_;
     std::array<VkSemaphore, frame_context_count> acquire_sems_;
     std::array<VkImage, 3> images_;
-- 
2.43.0


From 9607956b13f7995cebf4eafd455fe6b85446dd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:43 +0000
Subject: [PATCH 19/35] fix: request a supported number of swapchain images and
 accept any number the driver creates

---
 samples/pudding/src/swapchain.cpp | 15 ++++++++++++---
 samples/pudding/src/swapchain.hpp |  7 ++++---
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/samples/pudding/src/swapchain.cpp b/samples/pudding/src/swapchain.cpp
index 889ed8f..554a954 100644
--- a/samples/pudding/src/swapchain.cpp
+++ b/samples/pudding/src/swapchain.cpp
@@ -168,9 +168,15 @@ void swapchain::create()
     // Query surface capabilities
     vkGetPhysicalDeviceSurfaceCapabilitiesKHR(context.physical_device, surface_, &surface_caps_);
 
-    uint8_t desired_image_count = context.settings.vsync ? 2 : 3;
+    uint32_t desired_image_count = context.settings.vsync ? 2 : 3;
 
-    if (surface_caps_.maxImageCount < desired_image_count)
+    if (desired_image_count < surface_caps_.minImageCount)
+    {
+        desired_image_count = surface_caps_.minImageCount;
+    }
+
+    // A maximum of zero means that there is no limit
+    if (surface_caps_.maxImageCount != 0 && surface_caps_.maxImageCount < desired_image_count)
     {
         DEBUG("Unable to accommodate requested swapchain image size of {}, dropping to {}",
               desired_image_count, surface_caps_.maxImageCount);
@@ -220,7 +226,10 @@ void swapchain::create()
     }
 
     vkGetSwapchainImagesKHR(context.device, swapchain_, &image_count_, nullptr);
-    ENSURE(image_count_ < images_.size(), "Not enough space allocated for requested swapchain size");
+    // The driver is free to create more images than requested
+    images_.resize(image_count_);
+    views_.resize(image_count_);
+    rts_.resize(image_count_);
     ENSURE(vkGetSwapchainImagesKHR(context.device, swapchain_, &image_count_, images_.data()),
            "Failed to retrieve swapchain images");
 
diff --git a/samples/pudding/src/swapchain.hpp b/samples/pudding/src/swapchain.hpp
index c877c61..1e242d0 100644
--- a/samples/pudding/src/swapchain.hpp
+++ b/samples/pudding/src/swapchain.hpp
@@ -7,6 +7,7 @@
 #include <vulkan/vulkan.h>
 #include <cstdint>
 #include <optional>
+#include <vector>
 
 struct SDL_Window;
 
@@ -30,9 +31,9 @@ private:
     VkSurfaceFormatKHR format_{};
     VkPresentModeKHR mode_;
     std::array<VkSemaphore, frame_context_count> acquire_sems_;
-    std::array<VkImage, 3> images_;
-    std::array<pd::image_view, 3> views_;
-    std::array<pd::render_target, 3> rts_;
+    std::vector<VkImage> images_;
+    std::vector<pd::image_view> views_;
+    std::vector<pd::render_target> rts_;
 
     VkSurfaceCapabilitiesKHR surface_caps_;
 
-- 
2.43.0


From 1dd4417eb0d090263ead762e035ef879dde72803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:43 +0000
Subject: [PATCH 20/35] fix: use a composite alpha mode the surface supports

---
 samples/pudding/src/swapchain.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/samples/pudding/src/swapchain.cpp b/samples/pudding/src/swapchain.cpp
index 554a954..50f7a8f 100644
--- a/samples/pudding/src/swapchain.cpp
+++ b/samples/pudding/src/swapchain.cpp
@@ -211,6 +211,12 @@ void swapchain::create()
     swapchain_info.preTransform = surface_caps_.currentTransform; // Keep the transform as the identity
     swapchain_info.compositeAlpha =
         VK_COMPOSITE_ALPHA_OPAQUE_BIT_KHR; // Don't bother trying to support window managers with alpha compositing
+    if (!(surface_caps_.supportedCompositeAlpha & VK_COMPOSITE_ALPHA_OPAQUE_BIT_KHR))
+    {
+        // ... unless there is no choice, in which case the first supported mode (lowest bit) is as good as any
+        swapchain_info.compositeAlpha = static_cast<VkCompositeAlphaFlagBitsKHR>(
+            surface_caps_.supportedCompositeAlpha & (~surface_caps_.supportedCompositeAlpha + 1));
+    }
     swapchain_info.presentMode = mode_;
     // Necessarily render to pixels even if they are offscreen as they may be read back or used in debugging
     swapchain_info.clipped = VK_FALSE;
-- 
2.43.0


From 9c32f4586edfa3a5029bfc58982da446a70f97e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:20:43 +0000
Subject: [PATCH 21/35] fix: do not create swapchains outside of the supported
 extents, or of zero size for a minimized window

---
 samples/pudding/src/swapchain.cpp | 25 +++++++++++++++++++++++--
 samples/pudding/src/swapchain.hpp |  4 +++-
 2 files changed, 26 insertions(+), 3 deletions(-)

diff --git a/samples/pudding/src/swapchain.cpp b/samples/pudding/src/swapchain.cpp
index 50f7a8f..a32c32d 100644
--- a/samples/pudding/src/swapchain.cpp
+++ b/samples/pudding/src/swapchain.cpp
@@ -2,6 +2,7 @@
 
 #include <SDL.h>
 #include <SDL_vulkan.h>
+#include <algorithm>
 #include <vector>
 
 #include "context.hpp"
@@ -195,13 +196,23 @@ void swapchain::create()
     if (surface_caps_.currentExtent.width == std::numeric_limits<uint32_t>::max())
     {
         // Set swapchain extent to the size of the window
-        swapchain_info.imageExtent.width = width_;
-        swapchain_info.imageExtent.height = height_;
+        swapchain_info.imageExtent.width = std::clamp<uint32_t>(
+            width_, surface_caps_.minImageExtent.width, surface_caps_.maxImageExtent.width);
+        swapchain_info.imageExtent.height = std::clamp<uint32_t>(
+            height_, surface_caps_.minImageExtent.height, surface_caps_.maxImageExtent.height);
     }
     else
     {
         swapchain_info.imageExtent = surface_caps_.currentExtent;
     }
+
+    // There is nothing to render to while the window is minimized. This is attempted again on the next acquisition.
+    stale_ = swapchain_info.imageExtent.width == 0 || swapchain_info.imageExtent.height == 0;
+    if (stale_)
+    {
+        return;
+    }
+
     width_ = swapchain_info.imageExtent.width;
     height_ = swapchain_info.imageExtent.height;
 
@@ -283,6 +294,16 @@ void swapchain::create()
 
 std::optional<std::pair<pd::render_target const&, VkSemaphore>> swapchain::acquire()
 {
+    if (stale_)
+    {
+        create();
+
+        if (stale_)
+        {
+            return {};
+        }
+    }
+
     // The frame index wraps around, so it can only be taken modulo the frame count: at that point, the GPU is done with
     // the submission that waited on this semaphore last
     uint8_t frame_index = context.frame_index % frame_context_count;
diff --git a/samples/pudding/src/swapchain.hpp b/samples/pudding/src/swapchain.hpp
index 1e242d0..7f469c1 100644
--- a/samples/pudding/src/swapchain.hpp
+++ b/samples/pudding/src/swapchain.hpp
@@ -40,5 +40,7 @@ private:
     int width_;
     int height_;
     uint32_t active_index_;
-    uint32_t image_count_;
+    uint32_t image_count_ = 0;
+    // Set if the swapchain has to be recreated before it can be used
+    bool stale_ = false;
 };
\ No newline at end of file
-- 
2.43.0


From c123f6b5896ce085ca798e00af3122825d00474c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:13 +0000
Subject: [PATCH 22/35] fix: free each command buffer of a pudding once, after
 the device is done with it

---
 samples/pudding/src/pudding.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/samples/pudding/src/pudding.cpp b/samples/pudding/src/pudding.cpp
index 1e0bb7e..055cda1 100644
--- a/samples/pudding/src/pudding.cpp
+++ b/samples/pudding/src/pudding.cpp
@@ -52,10 +52,13 @@ pudding::~pudding()
 {
     puddings.erase(window_.id());
 
+    // Frames that were rendered by this pudding may still be in flight
+    ENSURE(vkDeviceWaitIdle(vk_device), "Unable to wait for the device to become idle");
+
     size_t i = 0;
     for (auto& frame_context : context.frames)
     {
-        vkFreeCommandBuffers(vk_device, frame_context.general.pool, 1, reinterpret_cast<VkCommandBuffer*>(&cbs_[0]));
+        vkFreeCommandBuffers(vk_device, frame_context.general.pool, 1, reinterpret_cast<VkCommandBuffer*>(&cbs_[i]));
         vkDestroySemaphore(vk_device, static_cast<VkSemaphore>(signals_[i]), vk_ac);
         ++i;
     }
-- 
2.43.0


From ed214af180e9579fab6ff6fd020e8a50852b6be3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:13 +0000
Subject: [PATCH 23/35] fix: destroy the swapchain, semaphores and surface of a
 window, in that order and before the window

---
 samples/pudding/src/swapchain.cpp | 20 ++++++++++++++++++++
 samples/pudding/src/swapchain.hpp |  3 +++
 samples/pudding/src/window.cpp    |  9 +++++----
 3 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/samples/pudding/src/swapchain.cpp b/samples/pudding/src/swapchain.cpp
index a32c32d..94216a7 100644
--- a/samples/pudding/src/swapchain.cpp
+++ b/samples/pudding/src/swapchain.cpp
@@ -164,6 +164,26 @@ swapchain::swapchain(SDL_Window& window)
     }
 }
 
+swapchain::~swapchain()
+{
+    ENSURE(vkDeviceWaitIdle(vk_device), "Unable to wait for the device to become idle");
+
+    // Views and retired swapchains must be gone before the surface is
+    rts_.clear();
+    views_.clear();
+    for (auto& frame : context.frames)
+    {
+        frame.garbage.flush();
+    }
+
+    vkDestroySwapchainKHR(vk_device, swapchain_, nullptr);
+    for (auto sem : acquire_sems_)
+    {
+        vkDestroySemaphore(vk_device, sem, nullptr);
+    }
+    vkDestroySurfaceKHR(context.instance, surface_, nullptr);
+}
+
 void swapchain::create()
 {
     // Query surface capabilities
diff --git a/samples/pudding/src/swapchain.hpp b/samples/pudding/src/swapchain.hpp
index 7f469c1..c734c27 100644
--- a/samples/pudding/src/swapchain.hpp
+++ b/samples/pudding/src/swapchain.hpp
@@ -15,6 +15,9 @@ class swapchain
 {
 public:
     swapchain(SDL_Window& window);
+    ~swapchain();
+    swapchain(swapchain const&) = delete;
+    swapchain& operator=(swapchain const&) = delete;
 
     void create();
 
diff --git a/samples/pudding/src/window.cpp b/samples/pudding/src/window.cpp
index 28d7507..5fed6ed 100644
--- a/samples/pudding/src/window.cpp
+++ b/samples/pudding/src/window.cpp
@@ -55,14 +55,15 @@ window& window::operator=(window&& other)
 
 window::~window()
 {
-    if (window_)
+    // The swapchain owns the surface of the window
+    if (sc_)
     {
-        SDL_DestroyWindow(window_);
+        delete sc_;
     }
 
-    if (sc_)
+    if (window_)
     {
-        delete sc_;
+        SDL_DestroyWindow(window_);
     }
 }
 
-- 
2.43.0


From 15cf14ddfe6bd9c509b9689f3e2500ee5ef8abdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:31 +0000
Subject: [PATCH 24/35] fix: stop when a Vulkan or SDL call fails instead of
 carrying on with garbage

---
 samples/pudding/src/pudding.cpp   | 13 ++++++++-----
 samples/pudding/src/renderer.cpp  | 31 +++++++++++++++++++------------
 samples/pudding/src/swapchain.cpp | 23 +++++++++++++++--------
 samples/pudding/src/window.cpp    |  2 ++
 4 files changed, 44 insertions(+), 25 deletions(-)

diff --git a/samples/pudding/src/pudding.cpp b/samples/pudding/src/pudding.cpp
index 055cda1..18d9d58 100644
--- a/samples/pudding/src/pudding.cpp
+++ b/samples/pudding/src/pudding.cpp
@@ -121,8 +121,9 @@ static void advance_frame()
     }
     if (fence_count != 0)
     {
-        vkWaitForFences(vk_device, fence_count, fences, VK_TRUE, std::numeric_limits<uint64_t>::max());
-        vkResetFences(vk_device, fence_count, fences);
+        ENSURE(vkWaitForFences(vk_device, fence_count, fences, VK_TRUE, std::numeric_limits<uint64_t>::max()),
+               "Unable to wait for the fences of a frame");
+        ENSURE(vkResetFences(vk_device, fence_count, fences), "Unable to reset the fences of a frame");
     }
 
     // Only reclaim objects once the GPU is done with the work that was recorded when they were disposed
@@ -353,13 +354,13 @@ void pudding::start()
                 VkCommandBufferBeginInfo cmd_begin_info{};
                 cmd_begin_info.sType = VK_STRUCTURE_TYPE_COMMAND_BUFFER_BEGIN_INFO;
                 cmd_begin_info.flags = VK_COMMAND_BUFFER_USAGE_ONE_TIME_SUBMIT_BIT;
-                vkBeginCommandBuffer(cb, &cmd_begin_info);
+                ENSURE(vkBeginCommandBuffer(cb, &cmd_begin_info), "Unable to begin command buffer");
 
                 // TODO send swapchain render target for each pudding and set appropriate semaphore on submission
                 cmd_stream cs{cb};
                 pd->render(cs, acq->first);
 
-                vkEndCommandBuffer(cb);
+                ENSURE(vkEndCommandBuffer(cb), "Unable to end command buffer");
 
                 cbs.emplace_back(cb);
                 waits.emplace_back(acq->second);
@@ -386,7 +387,9 @@ void pudding::start()
                 submits[i].pCommandBuffers   = &cbs[i];
                 submits[i].pSignalSemaphores = &signals[i];
             }
-            vkQueueSubmit(context.general.q, static_cast<uint32_t>(submits.size()), submits.data(), frame.general.fence);
+            ENSURE(vkQueueSubmit(
+                       context.general.q, static_cast<uint32_t>(submits.size()), submits.data(), frame.general.fence),
+                   "Unable to submit a frame");
             frame.general.dirty = true;
         }
 
diff --git a/samples/pudding/src/renderer.cpp b/samples/pudding/src/renderer.cpp
index a16df83..7d868a3 100644
--- a/samples/pudding/src/renderer.cpp
+++ b/samples/pudding/src/renderer.cpp
@@ -43,8 +43,8 @@ VkBool32 VKAPI_PTR debug_utils_messenger(VkDebugUtilsMessageSeverityFlagBitsEXT
 
 renderer::renderer(desc d)
 {
-    SDL_Init(SDL_INIT_VIDEO);
-    SDL_Vulkan_LoadLibrary(nullptr);
+    ENSURE(SDL_Init(SDL_INIT_VIDEO) == 0, "Unable to initialize SDL: {}", SDL_GetError());
+    ENSURE(SDL_Vulkan_LoadLibrary(nullptr) == 0, "Unable to load Vulkan: {}", SDL_GetError());
 
     VkApplicationInfo app_info{};
     app_info.sType              = VK_STRUCTURE_TYPE_APPLICATION_INFO;
@@ -72,11 +72,11 @@ renderer::renderer(desc d)
     std::vector<char const*> layers;
 #ifndef NDEBUG
     ext[ext_count++] = VK_EXT_DEBUG_UTILS_EXTENSION_NAME;
-    vkEnumerateInstanceLayerProperties(&layer_count, nullptr);
+    ENSURE(vkEnumerateInstanceLayerProperties(&layer_count, nullptr), "Unable to query layers");
     std::vector<VkLayerProperties> layer_props;
     DEBUG("{} layers found", layer_count);
     layer_props.resize(layer_count);
-    vkEnumerateInstanceLayerProperties(&layer_count, layer_props.data());
+    ENSURE(vkEnumerateInstanceLayerProperties(&layer_count, layer_props.data()), "Unable to query layers");
 
     for (auto prop : layer_props)
     {
@@ -130,12 +130,13 @@ renderer::renderer(desc d)
     }
 
     uint32_t device_count;
-    vkEnumeratePhysicalDevices(context.instance, &device_count, nullptr);
+    ENSURE(vkEnumeratePhysicalDevices(context.instance, &device_count, nullptr), "Unable to query gfx devices");
     ENSURE(device_count > 0, "No valid gfx devices found");
     ENSURE(device_count < 16, "Too many gfx devices found! :D");
 
     std::array<VkPhysicalDevice, 16> physical_devices;
-    vkEnumeratePhysicalDevices(context.instance, &device_count, physical_devices.data());
+    ENSURE(vkEnumeratePhysicalDevices(context.instance, &device_count, physical_devices.data()),
+           "Unable to query gfx devices");
 
     for (uint32_t i = 0; i != device_count; ++i)
     {
@@ -148,9 +149,11 @@ renderer::renderer(desc d)
         // https://www.khronos.org/registry/vulkan/specs/1.1-extensions/man/html/VkExtensionProperties.html
         uint32_t ext_prop_count;
         std::vector<VkExtensionProperties> ext_props;
-        vkEnumerateDeviceExtensionProperties(physical_device, nullptr, &ext_prop_count, nullptr);
+        ENSURE(vkEnumerateDeviceExtensionProperties(physical_device, nullptr, &ext_prop_count, nullptr),
+               "Unable to query device extensions");
         ext_props.resize(ext_prop_count);
-        vkEnumerateDeviceExtensionProperties(physical_device, nullptr, &ext_prop_count, ext_props.data());
+        ENSURE(vkEnumerateDeviceExtensionProperties(physical_device, nullptr, &ext_prop_count, ext_props.data()),
+               "Unable to query device extensions");
 
         bool gfx_enabled = false;
         for (auto ext_prop : ext_props)
@@ -358,7 +361,8 @@ void renderer::init_device(uint32_t index)
         command_pool_info.sType            = VK_STRUCTURE_TYPE_COMMAND_POOL_CREATE_INFO;
         command_pool_info.flags            = 0;
         command_pool_info.queueFamilyIndex = general_family_index;
-        vkCreateCommandPool(context.device, &command_pool_info, nullptr, &context.static_cmd_pool);
+        ENSURE(vkCreateCommandPool(context.device, &command_pool_info, nullptr, &context.static_cmd_pool),
+               "Unable to create vk command pool");
 
         for (auto& frame_context : context.frames)
         {
@@ -376,7 +380,8 @@ void renderer::init_device(uint32_t index)
             general_fence_info.sType = VK_STRUCTURE_TYPE_FENCE_CREATE_INFO;
             // A fence is only awaited (and reset) at the start of the frame if it was submitted, so it starts unsignaled
             general_fence_info.flags = 0;
-            vkCreateFence(context.device, &general_fence_info, nullptr, &frame_context.general.fence);
+            ENSURE(vkCreateFence(context.device, &general_fence_info, nullptr, &frame_context.general.fence),
+                   "Unable to create vk fence");
 
             if (queues_used > 1)
             {
@@ -391,7 +396,8 @@ void renderer::init_device(uint32_t index)
                 VkFenceCreateInfo dma_fence_info{};
                 dma_fence_info.sType = VK_STRUCTURE_TYPE_FENCE_CREATE_INFO;
                 dma_fence_info.flags = 0;
-                vkCreateFence(context.device, &dma_fence_info, nullptr, &frame_context.dma.fence);
+                ENSURE(vkCreateFence(context.device, &dma_fence_info, nullptr, &frame_context.dma.fence),
+                       "Unable to create vk fence");
             }
 
             if (queues_used > 2)
@@ -406,7 +412,8 @@ void renderer::init_device(uint32_t index)
                 VkFenceCreateInfo compute_fence_info{};
                 compute_fence_info.sType = VK_STRUCTURE_TYPE_FENCE_CREATE_INFO;
                 compute_fence_info.flags = 0;
-                vkCreateFence(context.device, &compute_fence_info, nullptr, &frame_context.compute.fence);
+                ENSURE(vkCreateFence(context.device, &compute_fence_info, nullptr, &frame_context.compute.fence),
+                       "Unable to create vk fence");
             }
         }
     }
diff --git a/samples/pudding/src/swapchain.cpp b/samples/pudding/src/swapchain.cpp
index 94216a7..d166b2f 100644
--- a/samples/pudding/src/swapchain.cpp
+++ b/samples/pudding/src/swapchain.cpp
@@ -15,18 +15,21 @@ swapchain::swapchain(SDL_Window& window)
     ENSURE(SDL_Vulkan_CreateSurface(window_, context.instance, &surface_), "Unable to create vulkan surface");
 
     VkBool32 surface_supported;
-    vkGetPhysicalDeviceSurfaceSupportKHR(
-        context.physical_device, context.present_queue_family, surface_, &surface_supported);
+    ENSURE(vkGetPhysicalDeviceSurfaceSupportKHR(
+               context.physical_device, context.present_queue_family, surface_, &surface_supported),
+           "Unable to query surface support");
     ENSURE(surface_supported, "The surface associated with a created swapchain is unsupported");
 
     // https://vulkan.lunarg.com/doc/view/1.0.26.0/linux/vkspec.chunked/ch29s05.html
     // Query available presentation modes and swapchain surface formats
     uint32_t format_count;
-    vkGetPhysicalDeviceSurfaceFormatsKHR(context.physical_device, surface_, &format_count, nullptr);
+    ENSURE(vkGetPhysicalDeviceSurfaceFormatsKHR(context.physical_device, surface_, &format_count, nullptr),
+           "Unable to query surface formats");
     ENSURE(format_count > 0, "Unable to find any suitable surface formats");
     std::vector<VkSurfaceFormatKHR> formats;
     formats.resize(format_count);
-    vkGetPhysicalDeviceSurfaceFormatsKHR(context.physical_device, surface_, &format_count, formats.data());
+    ENSURE(vkGetPhysicalDeviceSurfaceFormatsKHR(context.physical_device, surface_, &format_count, formats.data()),
+           "Unable to query surface formats");
 
     if (format_count == 1 && formats[0].format == VK_FORMAT_UNDEFINED)
     {
@@ -56,10 +59,12 @@ swapchain::swapchain(SDL_Window& window)
     }
 
     uint32_t mode_count;
-    vkGetPhysicalDeviceSurfacePresentModesKHR(context.physical_device, surface_, &mode_count, nullptr);
+    ENSURE(vkGetPhysicalDeviceSurfacePresentModesKHR(context.physical_device, surface_, &mode_count, nullptr),
+           "Unable to query present modes");
     std::vector<VkPresentModeKHR> modes;
     modes.resize(mode_count);
-    vkGetPhysicalDeviceSurfacePresentModesKHR(context.physical_device, surface_, &mode_count, modes.data());
+    ENSURE(vkGetPhysicalDeviceSurfacePresentModesKHR(context.physical_device, surface_, &mode_count, modes.data()),
+           "Unable to query present modes");
 
     // Check if the desired presentation mode is available
     VkPresentModeKHR desired = context.settings.vsync ? VK_PRESENT_MODE_FIFO_KHR : VK_PRESENT_MODE_MAILBOX_KHR;
@@ -187,7 +192,8 @@ swapchain::~swapchain()
 void swapchain::create()
 {
     // Query surface capabilities
-    vkGetPhysicalDeviceSurfaceCapabilitiesKHR(context.physical_device, surface_, &surface_caps_);
+    ENSURE(vkGetPhysicalDeviceSurfaceCapabilitiesKHR(context.physical_device, surface_, &surface_caps_),
+           "Unable to query surface capabilities");
 
     uint32_t desired_image_count = context.settings.vsync ? 2 : 3;
 
@@ -262,7 +268,8 @@ void swapchain::create()
         vk_dispose(old_swapchain);
     }
 
-    vkGetSwapchainImagesKHR(context.device, swapchain_, &image_count_, nullptr);
+    ENSURE(vkGetSwapchainImagesKHR(context.device, swapchain_, &image_count_, nullptr),
+           "Failed to retrieve swapchain images");
     // The driver is free to create more images than requested
     images_.resize(image_count_);
     views_.resize(image_count_);
diff --git a/samples/pudding/src/window.cpp b/samples/pudding/src/window.cpp
index 5fed6ed..f066e2e 100644
--- a/samples/pudding/src/window.cpp
+++ b/samples/pudding/src/window.cpp
@@ -5,6 +5,7 @@
 #include <SDL_vulkan.h>
 
 #include "context.hpp"
+#include "ensure.hpp"
 #include "swapchain.hpp"
 
 using namespace pd;
@@ -35,6 +36,7 @@ window::window(window_desc const& wd)
     }
 
     window_ = SDL_CreateWindow(wd.title, SDL_WINDOWPOS_CENTERED, SDL_WINDOWPOS_CENTERED, wd.width, wd.height, flags);
+    ENSURE(window_ != nullptr, "Unable to create window: {}", SDL_GetError());
     title_  = wd.title;
 
     sc_ = new swapchain(*window_);
-- 
2.43.0


From a17b095e896143d0c8bb607445adfa324bd31b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:47 +0000
Subject: [PATCH 25/35] fix: keep the render targets of a swapchain when the
 number of images varies between recreations

---
 samples/pudding/src/swapchain.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/samples/pudding/src/swapchain.cpp b/samples/pudding/src/swapchain.cpp
index d166b2f..7d3c769 100644
--- a/samples/pudding/src/swapchain.cpp
+++ b/samples/pudding/src/swapchain.cpp
@@ -273,7 +273,8 @@ void swapchain::create()
     // The driver is free to create more images than requested
     images_.resize(image_count_);
     views_.resize(image_count_);
-    rts_.resize(image_count_);
+    // Never shrinks, so that render targets (and the render passes that go with them) are kept if the count varies
+    rts_.resize(std::max<size_t>(rts_.size(), image_count_));
     ENSURE(vkGetSwapchainImagesKHR(context.device, swapchain_, &image_count_, images_.data()),
            "Failed to retrieve swapchain images");
 
-- 
2.43.0


From 6e47520792848bea6203f64715e39f812465328e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:39:14 +0000
Subject: [PATCH 26/35] fix: throw when all identifiers are leased instead of
 leasing them twice

---
 samples/pudding/src/uid.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/samples/pudding/src/uid.cpp b/samples/pudding/src/uid.cpp
index e15b162..2f78063 100644
--- a/samples/pudding/src/uid.cpp
+++ b/samples/pudding/src/uid.cpp
@@ -1,6 +1,7 @@
 #include <detail/uid.hpp>
 
 #include <functional>
+#include <stdexcept>
 #include <vector>
 
 using namespace pd::detail;
@@ -16,6 +17,10 @@ unique_id::unique_id()
 {
     if (free_ids.empty())
     {
+        if (next == 0)
+        {
+            throw std::length_error("All identifiers are leased");
+        }
         id = next++;
     }
     else
-- 
2.43.0


From a99a418933569a9d17340db3294a50b312613b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:11 +0000
Subject: [PATCH 27/35] fix: throw when memory runs out while formatting
 instead of returning a truncated text

---
 public/gal/expr.hpp   | 2 ++
 public/gal/format.hpp | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/public/gal/expr.hpp b/public/gal/expr.hpp
index e655f06..17a7d36 100644
--- a/public/gal/expr.hpp
+++ b/public/gal/expr.hpp
@@ -1182,6 +1182,8 @@ std::string to_string(detail::rpne<A, S> const& in, bool show_checksums = false,
     using namespace gal::detail;
 
     std::stringstream str;
+    // Without exceptions, running out of memory would silently truncate the text
+    str.exceptions(std::ios::badbit | std::ios::failbit);
 
     str << in.count << " node(s): " << in.q.num << '/' << in.q.den << '*';
     if (index)
diff --git a/public/gal/format.hpp b/public/gal/format.hpp
index ff6a9ad..3f2228f 100644
--- a/public/gal/format.hpp
+++ b/public/gal/format.hpp
@@ -17,6 +17,8 @@ template <typename A, typename T, elem_t... E>
     else
     {
         std::stringstream stream;
+        // Without exceptions, running out of memory would silently truncate the text
+        stream.exceptions(std::ios::badbit | std::ios::failbit);
 
         auto const& elements = in.elements;
         for (size_t i = 0; i != elements.size(); ++i)
-- 
2.43.0


From b25651341c9b5b37b96941b7fbeb8ee59219f4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:11 +0000
Subject: [PATCH 28/35] PD_SIM: read access to the retained log messages

---
 samples/pudding/src/log.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/samples/pudding/src/log.hpp b/samples/pudding/src/log.hpp
index 6877ed6..50b8ab7 100644
--- a/samples/pudding/src/log.hpp
+++ b/samples/pudding/src/log.hpp
@@ -26,6 +26,18 @@ public:
 
     void log_release(log_severity sev, std::string const& msg);
 
+#ifdef PD_SIM
+    // Simulation only: visits the retained messages, oldest first
+    template <typename F>
+    void sim_visit(F&& f) const
+    {
+        for (size_t i = cursor_ > buf_.size() ? cursor_ - buf_.size() : 0; i != cursor_; ++i)
+        {
+            f(buf_[i & (buf_.size() - 1)].first, buf_[i & (buf_.size() - 1)].second);
+        }
+    }
+#endif
+
 private:
     std::mutex mutex_;
     std::array<std::pair<log_severity, std::string>, log_buf_size> buf_;
-- 
2.43.0


From 2f4cec81506dd5eda86d92e685f7a263b931220e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:06 +0000
Subject: [PATCH 29/35] PD_SIM: visit the ring without relying on the cursor

---
 samples/pudding/src/log.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/samples/pudding/src/log.hpp b/samples/pudding/src/log.hpp
index 50b8ab7..82ac376 100644
--- a/samples/pudding/src/log.hpp
+++ b/samples/pudding/src/log.hpp
@@ -27,13 +27,13 @@ public:
     void log_release(log_severity sev, std::string const& msg);
 
 #ifdef PD_SIM
-    // Simulation only: visits the retained messages, oldest first
+    // Simulation only: visits the retained messages, in the order in which they lie in the ring
     template <typename F>
     void sim_visit(F&& f) const
     {
-        for (size_t i = cursor_ > buf_.size() ? cursor_ - buf_.size() : 0; i != cursor_; ++i)
+        for (auto const& entry : buf_)
         {
-            f(buf_[i & (buf_.size() - 1)].first, buf_[i & (buf_.size() - 1)].second);
+            f(entry.first, entry.second);
         }
     }
 #endif
-- 
2.43.0


From d0c75a7c519e64f19398cb1274b6c1fecf50a8a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:29:26 +0000
Subject: [PATCH 30/35] fix: request the debug utils extension only where it is
 available

---
 samples/pudding/src/renderer.cpp | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/samples/pudding/src/renderer.cpp b/samples/pudding/src/renderer.cpp
index 7d868a3..8ef288e 100644
--- a/samples/pudding/src/renderer.cpp
+++ b/samples/pudding/src/renderer.cpp
@@ -71,7 +71,22 @@ renderer::renderer(desc d)
     uint32_t layer_count = 0;
     std::vector<char const*> layers;
 #ifndef NDEBUG
-    ext[ext_count++] = VK_EXT_DEBUG_UTILS_EXTENSION_NAME;
+    // Not every driver offers the debug messenger
+    uint32_t instance_ext_count = 0;
+    ENSURE(vkEnumerateInstanceExtensionProperties(nullptr, &instance_ext_count, nullptr),
+           "Unable to query instance extensions");
+    std::vector<VkExtensionProperties> instance_exts;
+    instance_exts.resize(instance_ext_count);
+    ENSURE(vkEnumerateInstanceExtensionProperties(nullptr, &instance_ext_count, instance_exts.data()),
+           "Unable to query instance extensions");
+    for (auto& instance_ext : instance_exts)
+    {
+        if (strcmp(instance_ext.extensionName, VK_EXT_DEBUG_UTILS_EXTENSION_NAME) == 0)
+        {
+            ext[ext_count++] = VK_EXT_DEBUG_UTILS_EXTENSION_NAME;
+            break;
+        }
+    }
     ENSURE(vkEnumerateInstanceLayerProperties(&layer_count, nullptr), "Unable to query layers");
     std::vector<VkLayerProperties> layer_props;
     DEBUG("{} layers found", layer_count);
-- 
2.43.0


From fd5d4afa41499ea4e569ae00539ac124824c8f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:29 +0000
Subject: [PATCH 31/35] fix: render every window once per frame when a render
 callback creates windows

---
 samples/pudding/src/pudding.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/samples/pudding/src/pudding.cpp b/samples/pudding/src/pudding.cpp
index 18d9d58..d2c1d44 100644
--- a/samples/pudding/src/pudding.cpp
+++ b/samples/pudding/src/pudding.cpp
@@ -5,6 +5,7 @@
 #include <cstdint>
 #include <numeric>
 #include <unordered_map>
+#include <vector>
 
 #include "context.hpp"
 #include "ensure.hpp"
@@ -145,6 +146,7 @@ static void advance_frame()
 
 void pudding::start()
 {
+    std::vector<pudding*> visible;
     std::vector<pudding*> pds;
     std::vector<VkSubmitInfo> submits;
     std::vector<VkCommandBuffer> cbs;
@@ -344,7 +346,13 @@ void pudding::start()
         auto index = context.frame_index % frame_context_count;
 
         // For now, all rendering happens on the main thread
-        for (auto&& [id, pd] : puddings)
+        // Windows created by a render callback are rendered from the next frame on
+        visible.clear();
+        for (auto&& p : puddings)
+        {
+            visible.emplace_back(p.second);
+        }
+        for (auto* pd : visible)
         {
             VkCommandBuffer cb = static_cast<VkCommandBuffer>(pd->cbs_[index]);
             auto acq = pd->window_.sc().acquire();
-- 
2.43.0


From f9b08f829e001a180602cb515db1999f80318bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:29 +0000
Subject: [PATCH 32/35] fix: size swapchains in pixels on high dpi displays

---
 samples/pudding/src/swapchain.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/samples/pudding/src/swapchain.cpp b/samples/pudding/src/swapchain.cpp
index 7d3c769..7945a4a 100644
--- a/samples/pudding/src/swapchain.cpp
+++ b/samples/pudding/src/swapchain.cpp
@@ -218,7 +218,8 @@ void swapchain::create()
     swapchain_info.imageFormat = format_.format;
     swapchain_info.imageColorSpace = format_.colorSpace;
 
-    SDL_GetWindowSize(window_, &width_, &height_);
+    // In pixels, which is not the unit of the window size on a high dpi display
+    SDL_Vulkan_GetDrawableSize(window_, &width_, &height_);
     if (surface_caps_.currentExtent.width == std::numeric_limits<uint32_t>::max())
     {
         // Set swapchain extent to the size of the window
-- 
2.43.0


From 9611da80a4ceb0c50d4d4b67a775b377ec66daa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:33:18 +0000
Subject: [PATCH 33/35] fix: order passes on color, depth and stencil targets
 after earlier writes to them

---
 samples/pudding/src/cmd_stream.cpp | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/samples/pudding/src/cmd_stream.cpp b/samples/pudding/src/cmd_stream.cpp
index cdbb0ef..29f8fb7 100644
--- a/samples/pudding/src/cmd_stream.cpp
+++ b/samples/pudding/src/cmd_stream.cpp
@@ -146,16 +146,19 @@ void cmd_stream::begin_render_pass()
 
         pass_info.pSubpasses = &subpass;
 
-        // We're going to assume here that every render pass writes during the color attachment output stage and will do
-        // so in multiple frames. This dependency states that before we try to write to any color attachments, wait
-        // until writes prior to the start of the render pass have been flushed.
+        // Every render pass may follow another that uses the same targets, in this frame or in an earlier one. This
+        // dependency states that before we try to read or write any attachment, wait until writes prior to the start of
+        // the render pass have been flushed. Colors are accessed in the color attachment output stage, depth and
+        // stencil values in the fragment test stages.
         VkSubpassDependency dep{};
         dep.srcSubpass    = VK_SUBPASS_EXTERNAL;
-        dep.srcStageMask  = VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT;
-        dep.srcAccessMask = 0;
+        dep.srcStageMask  = VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT | VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT
+                            | VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT;
+        dep.srcAccessMask = VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT;
         dep.dstSubpass    = 0;
-        dep.dstStageMask  = VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT;
-        dep.dstAccessMask = VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT;
+        dep.dstStageMask  = dep.srcStageMask;
+        dep.dstAccessMask = VK_ACCESS_COLOR_ATTACHMENT_READ_BIT | VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT
+                            | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT;
 
         pass_info.dependencyCount = 1;
         pass_info.pDependencies = &dep;
-- 
2.43.0


From 0b12d05745670732308b7a5df473dc243411935e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:58:17 +0000
Subject: [PATCH 34/35] fix: keep the title of a window that is moved

---
 samples/pudding/src/window.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/samples/pudding/src/window.cpp b/samples/pudding/src/window.cpp
index f066e2e..96aaa1f 100644
--- a/samples/pudding/src/window.cpp
+++ b/samples/pudding/src/window.cpp
@@ -46,12 +46,14 @@ window::window(window&& other)
 {
     std::swap(window_, other.window_);
     std::swap(sc_, other.sc_);
+    std::swap(title_, other.title_);
 }
 
 window& window::operator=(window&& other)
 {
     std::swap(window_, other.window_);
     std::swap(sc_, other.sc_);
+    std::swap(title_, other.title_);
     return *this;
 }
 
-- 
2.43.0


From 92df7133559a9f69d0bed98aec4d7e7e59a34f67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:29:30 +0000
Subject: [PATCH 35/35] fix: clear the image of a window that renders nothing
 instead of presenting it undefined

---
 samples/pudding/public/pudding/cmd_stream.hpp |  6 ++++++
 samples/pudding/src/cmd_stream.cpp            | 16 ++++++++++++++++
 samples/pudding/src/pudding.cpp               |  2 ++
 3 files changed, 24 insertions(+)

diff --git a/samples/pudding/public/pudding/cmd_stream.hpp b/samples/pudding/public/pudding/cmd_stream.hpp
index 17f46ca..055eb3e 100644
--- a/samples/pudding/public/pudding/cmd_stream.hpp
+++ b/samples/pudding/public/pudding/cmd_stream.hpp
@@ -47,9 +47,15 @@ private:
     void begin_render_pass();
     void end_render_pass();
 
+    // Clears a render target that no render pass of this stream has used
+    void clear_unused(render_target const& rt);
+
     // Opaque handle pointing to a command buffer object
     void* cb_;
 
     std::vector<render_target const*> rts_;
+
+    // Image views of the render targets used by render passes so far
+    std::vector<image_view const*> used_;
 };
 } // namespace pd
\ No newline at end of file
diff --git a/samples/pudding/src/cmd_stream.cpp b/samples/pudding/src/cmd_stream.cpp
index 29f8fb7..9260fd9 100644
--- a/samples/pudding/src/cmd_stream.cpp
+++ b/samples/pudding/src/cmd_stream.cpp
@@ -2,6 +2,8 @@
 
 #include <image_view.hpp>
 
+#include <algorithm>
+
 #include "ensure.hpp"
 #include "context.hpp"
 
@@ -33,6 +35,7 @@ void cmd_stream::begin_render_pass()
     {
         rp_key.emplace_back(rt->uid.hash);
         views.emplace_back(static_cast<VkImageView>(rt->iv->handle()));
+        used_.emplace_back(rt->iv);
     }
 
     auto rp = vk_objects.render_passes.find(rp_key);
@@ -232,6 +235,19 @@ void cmd_stream::begin_render_pass()
     rts_.clear();
 }
 
+void cmd_stream::clear_unused(render_target const& rt)
+{
+    if (std::find(used_.begin(), used_.end(), rt.iv) != used_.end())
+    {
+        return;
+    }
+
+    rts_.clear();
+    push_render_target(rt);
+    begin_render_pass();
+    end_render_pass();
+}
+
 void cmd_stream::end_render_pass()
 {
     vkCmdEndRenderPass(static_cast<VkCommandBuffer>(cb_));
diff --git a/samples/pudding/src/pudding.cpp b/samples/pudding/src/pudding.cpp
index d2c1d44..7a2f83a 100644
--- a/samples/pudding/src/pudding.cpp
+++ b/samples/pudding/src/pudding.cpp
@@ -367,6 +367,8 @@ void pudding::start()
                 // TODO send swapchain render target for each pudding and set appropriate semaphore on submission
                 cmd_stream cs{cb};
                 pd->render(cs, acq->first);
+                // The image is presented either way, so one that was not rendered to is cleared instead
+                cs.clear_unused(acq->first);
 
                 ENSURE(vkEndCommandBuffer(cb), "Unable to end command buffer");
 
-- 
2.43.0

