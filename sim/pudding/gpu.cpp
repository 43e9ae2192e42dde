// Simulated Vulkan driver: GPU queues, synchronisation objects, presentation engine, validity rules of the Vulkan
// specification the program has to respect, and error injection.
#include "world.hpp"

#include <algorithm>
#include <cstdlib>
#include <unistd.h>

namespace sim
{
world W;

int const counter_count            = c_count;
char const* const counter_names[] = {"none",
#define SIM_COUNTER(x) #x,
#include "counters.inc"
#undef SIM_COUNTER
};

// ------------------------------------------------------------------------------------------------ log and verdicts
void world::log(char const* fmt, ...)
{
    char buf[512];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    uint64_t h = hash_str(buf);
    if (res)
    {
        res->order_hash = mix64(res->order_hash ^ h);
        res->log_hash   = mix64(res->log_hash ^ h ^ mix64(now));
    }
    if (trace)
    {
        fprintf(trace, "%12.6f ms  frame %-4llu %s\n", now / 1e6, (unsigned long long)frame, buf);
    }
}

void world::violate(char const* code, char const* fmt, ...)
{
    char buf[280];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    log("VIOLATION %s: %s", code, buf);
    if (!res)
    {
        return;
    }
    for (uint32_t i = 0; i != res->nviol; ++i)
    {
        if (strncmp(res->viol[i].code, code, sizeof res->viol[i].code - 1) == 0)
        {
            return; // one report per rule and run
        }
    }
    if (res->nviol < max_viol)
    {
        snprintf(res->viol[res->nviol].code, sizeof res->viol[0].code, "%s", code);
        snprintf(res->viol[res->nviol].msg, sizeof res->viol[0].msg, "%s (simulated time %.3f ms, frame %llu)", buf, now / 1e6,
                 (unsigned long long)frame);
        ++res->nviol;
    }
}

void world::finish()
{
    if (res)
    {
        res->sim_ns    = now;
        res->decisions = ch.total();
        res->calls     = calls;
        res->frames    = frame;
        res->finished  = 1;
    }
    if (trace)
    {
        fflush(trace);
    }
    extern void dump_decisions();
    dump_decisions();
    _exit(0);
}

void world::advance(uint64_t d)
{
    uint64_t until = now + d;
    while (!events.empty() && events.top().at <= until)
    {
        step();
    }
    now = until;
}

bool world::step()
{
    if (events.empty())
    {
        return false;
    }
    auto e = events.top();
    events.pop();
    if (e.at > now)
    {
        now = e.at;
    }
    e.run();
    return true;
}

bool world::wait_until(std::function<bool()> const& pred)
{
    while (!pred())
    {
        if (!step())
        {
            return false;
        }
    }
    return true;
}

void world::enter(char const* fn)
{
    if (++calls > 4000000)
    {
        violate("hang.livelock", "more than 4000000 calls in one run");
        finish();
    }
    log("%s", fn);
    uint64_t d = 2000;
    if (cfg.host_jitter && ch.chance("host.delay", 25))
    {
        static uint64_t const delays[] = {50'000, 300'000, 2'000'000, 17'000'000, 60'000'000};
        d = delays[ch.choose("host.delay.len", 5)];
        count(f_host_delay);
    }
    advance(d);
    if (in_loop && !quiet && cfg.resizes && ch.chance("wm.async", 3))
    {
        std::vector<sim_window*> live;
        for (auto& w : windows)
        {
            if (w.alive && w.surface)
            {
                live.push_back(&w);
            }
        }
        if (!live.empty())
        {
            auto& w = *live[ch.choose("wm.async.window", (uint32_t)live.size())];
            count(f_resize_during_frame);
            resize_window(w, 16 + ch.choose("wm.async.w", 64) * 16, 16 + ch.choose("wm.async.h", 64) * 16);
        }
    }
}

// ------------------------------------------------------------------------------------------------ faults
VkResult world::fault(char const* fn, std::initializer_list<VkResult> errors)
{
    auto has = [&](VkResult r) { return std::find(errors.begin(), errors.end(), r) != errors.end(); };
    if (device_lost && has(VK_ERROR_DEVICE_LOST))
    {
        return VK_ERROR_DEVICE_LOST;
    }
    uint32_t idx = call_index[fn]++;
    if (!cfg.fatal_func || !fatal.empty() || strcmp(cfg.fatal_func, fn) != 0 || idx != cfg.fatal_index)
    {
        return VK_SUCCESS;
    }
    VkResult r = *(errors.begin() + cfg.fatal_kind % errors.size());
    fatal      = std::string(fn) + " -> " + std::to_string(static_cast<int>(r));
    log("FAULT %s", fatal.c_str());
    switch (r)
    {
    case VK_ERROR_DEVICE_LOST:
        device_lost = true;
        count(f_device_lost);
        break;
    case VK_ERROR_OUT_OF_HOST_MEMORY:
        count(f_out_of_host_memory);
        break;
    case VK_ERROR_OUT_OF_DEVICE_MEMORY:
        count(f_out_of_device_memory);
        break;
    case VK_ERROR_SURFACE_LOST_KHR:
        count(f_surface_lost);
        break;
    default:
        count(f_init_failed);
        break;
    }
    return r;
}

bool world::sdl_fault(char const* fn)
{
    uint32_t idx = call_index[fn]++;
    if (!cfg.fatal_func || !fatal.empty() || strcmp(cfg.fatal_func, fn) != 0 || idx != cfg.fatal_index)
    {
        return false;
    }
    fatal = std::string(fn) + " fails";
    log("FAULT %s", fatal.c_str());
    count(f_sdl_failure);
    return true;
}

// A validation layer may report something on any call; the application's callback answers whether to abort the call.
bool world::messenger_abort()
{
    if (!messenger || in_messenger || !ch.chance("vk.messenger", 60))
    {
        return false;
    }
    in_messenger = true;
    count(f_messenger_callback);
    VkDebugUtilsMessengerCallbackDataEXT data{};
    data.sType = VK_STRUCTURE_TYPE_DEBUG_UTILS_MESSENGER_CALLBACK_DATA_EXT;
    data.pMessageIdName = ch.choose("vk.messenger.id", 2) ? nullptr : "SIM-MESSAGE";
    data.pMessage       = "simulated validation message {} with braces";
    static VkDebugUtilsMessageSeverityFlagBitsEXT const sev[]
        = {VK_DEBUG_UTILS_MESSAGE_SEVERITY_INFO_BIT_EXT, VK_DEBUG_UTILS_MESSAGE_SEVERITY_VERBOSE_BIT_EXT,
           VK_DEBUG_UTILS_MESSAGE_SEVERITY_WARNING_BIT_EXT, VK_DEBUG_UTILS_MESSAGE_SEVERITY_ERROR_BIT_EXT};
    auto s = sev[ch.choose("vk.messenger.sev", 4)];
    --sim_depth;
    VkBool32 r = messenger(s, VK_DEBUG_UTILS_MESSAGE_TYPE_GENERAL_BIT_EXT, &data, nullptr);
    ++sim_depth;
    in_messenger = false;
    return r == VK_TRUE;
}

// ------------------------------------------------------------------------------------------------ handles
static char const* kind_name(kind k)
{
    static char const* const n[] = {"none", "instance", "physical device", "device", "queue", "semaphore", "fence",
                                    "command buffer", "command pool", "image", "image view", "render pass",
                                    "framebuffer", "descriptor pool", "surface", "swapchain", "messenger", "allocator",
                                    "memory"};
    return n[(int)k];
}

template <typename T, typename H>
T* world::use(H h, kind k, char const* what, char const* fn)
{
    auto* o = find(to_id(h), k);
    if (!o)
    {
        violate("life.garbage-handle", "%s: %s is not a valid %s", fn, what, kind_name(k));
        return nullptr;
    }
    if (!o->alive)
    {
        violate("life.use-after-destroy", "%s: %s is a destroyed %s", fn, what, kind_name(k));
        return nullptr;
    }
    return static_cast<T*>(o);
}

static bool destroy(uint32_t id, bool null, kind k, char const* fn)
{
    if (null)
    {
        return false;
    }
    auto* o = W.find(id, k);
    if (!o)
    {
        W.violate("life.destroy-garbage", "%s: not a valid %s", fn, kind_name(k));
        return false;
    }
    if (!o->alive)
    {
        W.violate("life.double-destroy", "%s: %s destroyed twice", fn, kind_name(k));
        return false;
    }
    if (o->in_flight > 0)
    {
        W.violate("life.destroy-in-flight", "%s: %s destroyed while the GPU is still using it", fn, kind_name(k));
    }
    W.kill(*o);
    W.log("  destroy %s #%u", kind_name(k), id);
    return true;
}

void world::reference(gpu_op& op, uint32_t id)
{
    if (id && op.uses.insert(id).second)
    {
        ++objs[id - 1]->in_flight;
    }
}

// ------------------------------------------------------------------------------------------------ gpu timeline
static void signal_semaphore(uint32_t id)
{
    auto& s = W.get<o_semaphore>(id);
    if (s.signaled)
    {
        W.violate("sync.signal-signaled", "a semaphore is signaled on the device while already signaled");
    }
    s.signaled = true;
    --s.pending;
    // Any queue may have been waiting for it.
    W.after(0, [] {
        for (size_t i = 0; i != W.objs.size(); ++i)
        {
            if (W.objs[i]->k == kind::queue)
            {
                W.pump((uint32_t)i + 1);
            }
        }
    });
}

void world::pump(uint32_t queue_id)
{
    auto& q = get<o_queue>(queue_id);
    while (!q.ops.empty())
    {
        auto& op = q.ops.front();
        if (op.running)
        {
            return;
        }
        for (auto id : op.waits)
        {
            if (!get<o_semaphore>(id).signaled)
            {
                return;
            }
        }
        for (auto id : op.waits)
        {
            auto& s    = get<o_semaphore>(id);
            s.signaled = false;
            --s.pending;
        }
        if (op.present)
        {
            present_exec(op);
            for (auto id : op.uses)
            {
                --objs[id - 1]->in_flight;
            }
            q.ops.pop_front();
            continue;
        }
        op.running = true;
        uint64_t d = 400'000;
        if (cfg.slow_gpu && ch.chance("gpu.slow", 250))
        {
            static uint64_t const lens[] = {3'000'000, 12'000'000, 40'000'000, 150'000'000};
            d = lens[ch.choose("gpu.slow.len", 4)];
            if (cfg.long_stalls && ch.chance("gpu.stall", 80))
            {
                static uint64_t const stalls[] = {1'500'000'000ull, 7'000'000'000ull, 45'000'000'000ull, 400'000'000'000ull};
                d = stalls[ch.choose("gpu.stall.len", 4)];
                count(f_long_stall);
            }
            count(f_slow_gpu);
        }
        for (auto cbid : op.cbs)
        {
            for (auto& p : get<o_command_buffer>(cbid).passes)
            {
                for (auto v : get<o_framebuffer>(p.framebuffer).views)
                {
                    auto& img = get<o_image>(get<o_image_view>(v).image);
                    if (img.swapchain && img.pe_reading)
                    {
                        violate("sync.render-before-release",
                                "rendering starts on a swapchain image the presentation engine has not released yet");
                    }
                    else if (img.swapchain && !img.acquired && !img.queued)
                    {
                        violate("route.render-unacquired", "rendering to a swapchain image that is not acquired");
                    }
                }
            }
        }
        log("gpu: batch of frame %llu starts", (unsigned long long)op.frame);
        after(d, [this, queue_id] { finish_op(queue_id); });
        return;
    }
}

void world::finish_op(uint32_t queue_id)
{
    auto& q = get<o_queue>(queue_id);
    auto op = q.ops.front();
    q.ops.pop_front();
    log("gpu: batch of frame %llu done", (unsigned long long)op.frame);
    for (auto cbid : op.cbs)
    {
        auto& cb = get<o_command_buffer>(cbid);
        for (auto& p : cb.passes)
        {
            auto& rp = get<o_render_pass>(p.render_pass);
            auto& fb = get<o_framebuffer>(p.framebuffer);
            for (size_t i = 0; i < fb.views.size() && i < rp.att.size(); ++i)
            {
                auto& img   = get<o_image>(get<o_image_view>(fb.views[i]).image);
                img.layout  = rp.att[i].finalLayout;
                img.content = rp.att[i].storeOp == VK_ATTACHMENT_STORE_OP_STORE ? p.token : 0;
            }
        }
        cb.state = cb.one_time ? cb_state::invalid : cb_state::executable;
    }
    for (auto id : op.uses)
    {
        --objs[id - 1]->in_flight;
    }
    for (auto id : op.signals)
    {
        signal_semaphore(id);
    }
    if (op.fence)
    {
        auto& f    = get<o_fence>(op.fence);
        f.signaled = true;
        f.pending  = false;
    }
    pump(queue_id);
}

std::set<uint64_t> world::unfinished_frames() const
{
    std::set<uint64_t> r;
    for (auto& o : objs)
    {
        if (o->k == kind::queue)
        {
            for (auto& op : static_cast<o_queue&>(*o).ops)
            {
                if (!op.present)
                {
                    r.insert(op.frame);
                }
            }
        }
    }
    return r;
}

// ------------------------------------------------------------------------------------------------ presentation
void world::release_image(o_swapchain& sc, uint32_t image)
{
    auto& img  = get<o_image>(image);
    img.queued = false;
    (void)sc;
}

void world::schedule_vblank(o_swapchain& sc)
{
    if (sc.vblank_scheduled)
    {
        return;
    }
    sc.vblank_scheduled = true;
    uint64_t period     = 16'600'000;
    uint64_t d          = period - now % period;
    if (cfg.slow_pe && ch.chance("pe.slow", 200))
    {
        d += period * (1 + ch.choose("pe.slow.len", 20));
        count(f_slow_presentation);
        if (cfg.long_stalls && ch.chance("pe.stall", 60))
        {
            d += 1'000'000'000ull * (2 + 30 * ch.choose("pe.stall.len", 4));
            count(f_long_stall);
        }
    }
    uint32_t id = sc.id;
    after(d, [this, id] {
        auto& sc            = get<o_swapchain>(id);
        sc.vblank_scheduled = false;
        if (sc.present_q.empty())
        {
            return;
        }
        uint32_t img = sc.present_q.front();
        sc.present_q.pop_front();
        if (sc.displayed)
        {
            release_image(sc, sc.displayed);
        }
        sc.displayed = img;
        log("pe: vblank shows image %u of swapchain #%u", get<o_image>(img).index, id);
        if (!sc.present_q.empty())
        {
            schedule_vblank(sc);
        }
    });
}

void world::present_exec(gpu_op& op)
{
    if (!op.image)
    {
        return; // the swapchain was out of date: only the semaphore wait executes
    }
    auto& sc  = get<o_swapchain>(op.swapchain);
    auto& img = get<o_image>(op.image);
    uint64_t want = op.frame; // token
    if (img.content != want && !(img.content == 0 && idle_tokens.count(want)))
    {
        if (img.content != 0 && want != 0 && (img.content >> 32) != (want >> 32))
        {
            violate("route.wrong-content", "window %u is shown what application %u rendered", op.window,
                    (unsigned)(img.content >> 32));
        }
        else
        {
            violate("sync.present-before-render",
                    "an image is presented to window %u before the rendering of its frame has finished", op.window);
        }
    }
    if (img.layout != VK_IMAGE_LAYOUT_PRESENT_SRC_KHR)
    {
        violate("pass.present-layout", "an image is presented in layout %d", (int)img.layout);
    }
    log("pe: image %u of swapchain #%u queued for display", img.index, sc.id);
    if (sc.info.presentMode == VK_PRESENT_MODE_MAILBOX_KHR)
    {
        while (!sc.present_q.empty())
        {
            release_image(sc, sc.present_q.front());
            sc.present_q.pop_front();
        }
        sc.present_q.push_back(op.image);
        schedule_vblank(sc);
    }
    else if (sc.info.presentMode == VK_PRESENT_MODE_IMMEDIATE_KHR)
    {
        if (sc.displayed)
        {
            release_image(sc, sc.displayed);
        }
        sc.displayed = op.image;
    }
    else
    {
        sc.present_q.push_back(op.image);
        schedule_vblank(sc);
    }
}

// ------------------------------------------------------------------------------------------------ window manager
VkExtent2D world::current_extent(sim_window const& w) const
{
    if (w.minimised)
    {
        return {w.collapse == 1 ? w.px_w() : 0, w.collapse == 2 ? w.px_h() : 0};
    }
    return {w.px_w(), w.px_h()};
}

VkSurfaceCapabilitiesKHR world::caps(o_surface const& s) const
{
    VkSurfaceCapabilitiesKHR c{};
    sim_window const* w = nullptr;
    for (auto& x : windows)
    {
        if (x.handle.id == s.window)
        {
            w = &x;
        }
    }
    c.minImageCount = s.offer.caps_min;
    c.maxImageCount = s.offer.caps_max;
    if (cfg.wayland && !w->minimised)
    {
        c.currentExtent  = {0xFFFFFFFFu, 0xFFFFFFFFu};
        c.minImageExtent = {32, 32};
        c.maxImageExtent = {1024, 1024};
    }
    else
    {
        c.currentExtent  = current_extent(*w);
        c.minImageExtent = c.currentExtent;
        c.maxImageExtent = c.currentExtent;
    }
    c.maxImageArrayLayers     = 1;
    c.supportedTransforms     = s.offer.transform | (s.offer.identity ? VK_SURFACE_TRANSFORM_IDENTITY_BIT_KHR : 0);
    c.currentTransform        = s.offer.transform;
    c.supportedCompositeAlpha = s.offer.alpha;
    c.supportedUsageFlags     = VK_IMAGE_USAGE_COLOR_ATTACHMENT_BIT | VK_IMAGE_USAGE_TRANSFER_DST_BIT;
    return c;
}

void world::resize_window(sim_window& w, int nw, int nh)
{
    w.w = nw;
    w.h = nh;
    count(f_resize);
    log("wm: window %u resized to %dx%d", w.handle.id, nw, nh);
    if (w.surface)
    {
        auto& s = get<o_surface>(w.surface);
        ++s.generation;
        if (cfg.varied_surfaces && !quiet)
        {
            vary_limits(s.offer);
        }
        s.ood           = w.minimised || !cfg.suboptimal || ch.chance("wm.force_ood", 300);
        s.changed_frame = frame;
        s.fresh         = false;
    }
}
} // namespace sim

// ================================================================================================ entry points
using namespace sim;
#define ENTER(fn)      \
    sim_scope scope__; \
    W.enter(fn);

static void no_work_after_quit(char const* fn)
{
    if (W.quit_sent)
    {
        W.violate("quit.work-after", "%s is called after the quit request", fn);
    }
}

#define FAULT(fn, ...)                              \
    if (VkResult f__ = W.fault(fn, {__VA_ARGS__})) \
    {                                               \
        return f__;                                 \
    }                                               \
    if (W.messenger_abort())                        \
    {                                               \
        return VALIDATION_ERROR;                    \
    }

#define OOM VK_ERROR_OUT_OF_HOST_MEMORY, VK_ERROR_OUT_OF_DEVICE_MEMORY
#define VALIDATION_ERROR static_cast<VkResult>(-1000011001)

extern "C" void* __asan_region_is_poisoned(void*, size_t);

// An array the program hands to the API has to be there, all of it: the driver reads it.
template <typename T>
static bool readable(T const* p, size_t n, char const* fn)
{
    if (n && (!p || __asan_region_is_poisoned(const_cast<T*>(p), n * sizeof(T))))
    {
        W.violate("memory.argument", "%s is given %zu elements that are not all there", fn, n);
        return false;
    }
    return true;
}

extern "C" {
static void check_device(VkDevice d, char const* fn)
{
    W.use<object>(d, kind::device, "device", fn);
}

static VkResult sim_create_messenger(VkInstance instance, VkDebugUtilsMessengerCreateInfoEXT const* info,
                                     VkAllocationCallbacks const*, VkDebugUtilsMessengerEXT* out)
{
    ENTER("vkCreateDebugUtilsMessengerEXT");
    W.use<object>(instance, kind::instance, "instance", "vkCreateDebugUtilsMessengerEXT");
    FAULT("vkCreateDebugUtilsMessengerEXT", VK_ERROR_OUT_OF_HOST_MEMORY);
    W.messenger = info->pfnUserCallback;
    *out        = W.to_handle<VkDebugUtilsMessengerEXT>(W.make<o_misc>(kind::messenger).id);
    return VK_SUCCESS;
}

PFN_vkVoidFunction vkGetInstanceProcAddr(VkInstance, char const* name)
{
    ENTER("vkGetInstanceProcAddr");
    if (W.debug_utils_on && strcmp(name, "vkCreateDebugUtilsMessengerEXT") == 0)
    {
        return reinterpret_cast<PFN_vkVoidFunction>(&sim_create_messenger);
    }
    return nullptr;
}

static std::vector<std::string> instance_extensions()
{
    std::vector<std::string> v{"VK_KHR_device_group_creation", "VK_KHR_get_physical_device_properties2", "VK_EXT_debug_report"};
    for (uint32_t i = 0; i != std::max(W.cfg.wm_extensions, 4u); ++i)
    {
        v.push_back(window_system_extensions[i]);
    }
    if (W.cfg.has_debug_utils)
    {
        v.push_back(VK_EXT_DEBUG_UTILS_EXTENSION_NAME);
    }
    return v;
}
static std::vector<std::string> instance_layers()
{
    std::vector<std::string> v{"VK_LAYER_LUNARG_api_dump"};
    if (W.cfg.has_validation)
    {
        v.push_back("VK_LAYER_LUNARG_standard_validation");
    }
    if (W.cfg.has_renderdoc)
    {
        v.push_back("VK_LAYER_RENDERDOC_Capture");
    }
    return v;
}
VkResult vkEnumerateInstanceVersion(uint32_t* v)
{
    ENTER("vkEnumerateInstanceVersion");
    *v = VK_MAKE_VERSION(1, 1, 0);
    return VK_SUCCESS;
}
VkResult vkEnumerateInstanceExtensionProperties(char const*, uint32_t* count, VkExtensionProperties* out)
{
    ENTER("vkEnumerateInstanceExtensionProperties");
    FAULT("vkEnumerateInstanceExtensionProperties", OOM);
    auto ext   = instance_extensions();
    uint32_t n = (uint32_t)ext.size();
    if (!out)
    {
        *count = n;
        return VK_SUCCESS;
    }
    uint32_t m = std::min(*count, n);
    for (uint32_t i = 0; i != m; ++i)
    {
        memset(&out[i], 0, sizeof out[i]);
        snprintf(out[i].extensionName, sizeof out[i].extensionName, "%s", ext[i].c_str());
    }
    *count = m;
    return m < n ? VK_INCOMPLETE : VK_SUCCESS;
}
VkResult vkCreateInstance(VkInstanceCreateInfo const* info, VkAllocationCallbacks const*, VkInstance* out)
{
    ENTER("vkCreateInstance");
    FAULT("vkCreateInstance", OOM, VK_ERROR_INITIALIZATION_FAILED, VK_ERROR_LAYER_NOT_PRESENT,
          VK_ERROR_INCOMPATIBLE_DRIVER);
    uint32_t needed = 0;
    readable(info->ppEnabledExtensionNames, info->enabledExtensionCount, "vkCreateInstance (extensions)");
    readable(info->ppEnabledLayerNames, info->enabledLayerCount, "vkCreateInstance (layers)");
    for (uint32_t i = 0; i != info->enabledExtensionCount; ++i)
    {
        std::string x = info->ppEnabledExtensionNames[i];
        auto have     = instance_extensions();
        if (std::find(have.begin(), have.end(), x) == have.end())
        {
            W.violate("cap.instance-extensions", "extension %s is enabled but not available", x.c_str());
            return VK_ERROR_EXTENSION_NOT_PRESENT;
        }
        for (uint32_t j = 0; j != W.cfg.wm_extensions; ++j)
        {
            needed += x == window_system_extensions[j];
        }
        W.debug_utils_on |= x == VK_EXT_DEBUG_UTILS_EXTENSION_NAME;
    }
    if (needed < W.cfg.wm_extensions)
    {
        W.violate("cap.instance-extensions", "the extensions the window system requires are not enabled");
    }
    for (uint32_t i = 0; i != info->enabledLayerCount; ++i)
    {
        auto have = instance_layers();
        if (std::find(have.begin(), have.end(), info->ppEnabledLayerNames[i]) == have.end())
        {
            W.violate("cap.instance-layers", "layer %s is enabled but not available", info->ppEnabledLayerNames[i]);
            return VK_ERROR_LAYER_NOT_PRESENT;
        }
    }
    W.instance_id = W.make<o_misc>(kind::instance).id;
    *out          = W.to_handle<VkInstance>(W.instance_id);
    return VK_SUCCESS;
}

void vkDestroyInstance(VkInstance i, VkAllocationCallbacks const*)
{
    ENTER("vkDestroyInstance");
    destroy(W.to_id(i), !i, kind::instance, "vkDestroyInstance");
}

VkResult vkEnumerateInstanceLayerProperties(uint32_t* count, VkLayerProperties* out)
{
    ENTER("vkEnumerateInstanceLayerProperties");
    FAULT("vkEnumerateInstanceLayerProperties", OOM);
    auto layers = instance_layers();
    uint32_t n  = (uint32_t)layers.size();
    if (!out)
    {
        *count = n;
        return VK_SUCCESS;
    }
    uint32_t m = std::min(*count, n);
    for (uint32_t i = 0; i != m; ++i)
    {
        memset(&out[i], 0, sizeof out[i]);
        snprintf(out[i].layerName, sizeof out[i].layerName, "%s", layers[i].c_str());
    }
    *count = m;
    return m < n ? VK_INCOMPLETE : VK_SUCCESS;
}

VkResult vkEnumeratePhysicalDevices(VkInstance inst, uint32_t* count, VkPhysicalDevice* out)
{
    ENTER("vkEnumeratePhysicalDevices");
    W.use<object>(inst, kind::instance, "instance", "vkEnumeratePhysicalDevices");
    FAULT("vkEnumeratePhysicalDevices", OOM, VK_ERROR_INITIALIZATION_FAILED);
    uint32_t n = (uint32_t)W.phys.size();
    if (!n && W.fatal.empty())
    {
        W.fatal = "there is no device at all";
        W.count(f_init_failed);
        W.log("FAULT no device");
    }
    if (!out)
    {
        *count = n;
        return VK_SUCCESS;
    }
    uint32_t m = std::min(*count, n);
    for (uint32_t i = 0; i != m; ++i)
    {
        out[i] = W.to_handle<VkPhysicalDevice>(W.phys[i].object_id);
    }
    *count = m;
    return m < n ? VK_INCOMPLETE : VK_SUCCESS;
}

static phys_device* phys_of(VkPhysicalDevice p, char const* fn)
{
    if (!W.use<object>(p, kind::physical_device, "physical device", fn))
    {
        return nullptr;
    }
    for (auto& d : W.phys)
    {
        if (d.object_id == W.to_id(p))
        {
            return &d;
        }
    }
    return nullptr;
}

void vkGetPhysicalDeviceProperties(VkPhysicalDevice p, VkPhysicalDeviceProperties* out)
{
    ENTER("vkGetPhysicalDeviceProperties");
    memset(out, 0, sizeof *out);
    if (auto* d = phys_of(p, "vkGetPhysicalDeviceProperties"))
    {
        out->apiVersion = VK_API_VERSION_1_1;
        out->vendorID   = d->vendor;
        out->deviceType = d->type;
        snprintf(out->deviceName, sizeof out->deviceName, "%s", d->name.c_str());
    }
}

void vkGetPhysicalDeviceMemoryProperties(VkPhysicalDevice p, VkPhysicalDeviceMemoryProperties* out)
{
    ENTER("vkGetPhysicalDeviceMemoryProperties");
    memset(out, 0, sizeof *out);
    if (auto* d = phys_of(p, "vkGetPhysicalDeviceMemoryProperties"))
    {
        out->memoryHeapCount = (uint32_t)d->heaps.size();
        for (size_t i = 0; i != d->heaps.size(); ++i)
        {
            out->memoryHeaps[i].size  = d->heaps[i].first;
            out->memoryHeaps[i].flags = d->heaps[i].second ? VK_MEMORY_HEAP_DEVICE_LOCAL_BIT : 0;
        }
    }
}

void vkGetPhysicalDeviceQueueFamilyProperties(VkPhysicalDevice p, uint32_t* count, VkQueueFamilyProperties* out)
{
    ENTER("vkGetPhysicalDeviceQueueFamilyProperties");
    auto* d = phys_of(p, "vkGetPhysicalDeviceQueueFamilyProperties");
    if (!d)
    {
        *count = 0;
        return;
    }
    uint32_t n = (uint32_t)d->families.size();
    if (!out)
    {
        *count = n;
        return;
    }
    *count = std::min(*count, n);
    for (uint32_t i = 0; i != *count; ++i)
    {
        out[i] = d->families[i];
    }
}

VkResult vkEnumerateDeviceExtensionProperties(VkPhysicalDevice p, char const*, uint32_t* count, VkExtensionProperties* out)
{
    ENTER("vkEnumerateDeviceExtensionProperties");
    FAULT("vkEnumerateDeviceExtensionProperties", OOM);
    auto* d = phys_of(p, "vkEnumerateDeviceExtensionProperties");
    std::vector<std::string> ext{"VK_KHR_maintenance1", "VK_EXT_memory_budget"};
    if (d && d->swapchain_ext)
    {
        ext.push_back(VK_KHR_SWAPCHAIN_EXTENSION_NAME);
        ext.push_back("VK_KHR_push_descriptor");
    }
    uint32_t n = (uint32_t)ext.size();
    if (!out)
    {
        *count = n;
        return VK_SUCCESS;
    }
    uint32_t m = std::min(*count, n);
    for (uint32_t i = 0; i != m; ++i)
    {
        memset(&out[i], 0, sizeof out[i]);
        snprintf(out[i].extensionName, sizeof out[i].extensionName, "%s", ext[i].c_str());
    }
    *count = m;
    return m < n ? VK_INCOMPLETE : VK_SUCCESS;
}

VkResult vkCreateDevice(VkPhysicalDevice p, VkDeviceCreateInfo const* info, VkAllocationCallbacks const*, VkDevice* out)
{
    ENTER("vkCreateDevice");
    FAULT("vkCreateDevice", OOM, VK_ERROR_INITIALIZATION_FAILED, VK_ERROR_DEVICE_LOST);
    auto* d = phys_of(p, "vkCreateDevice");
    if (!d)
    {
        return VK_ERROR_INITIALIZATION_FAILED;
    }
    readable(info->ppEnabledExtensionNames, info->enabledExtensionCount, "vkCreateDevice");
    bool presents = false;
    for (uint32_t i = 0; i != info->enabledExtensionCount; ++i)
    {
        std::string e = info->ppEnabledExtensionNames[i];
        presents |= e == VK_KHR_SWAPCHAIN_EXTENSION_NAME;
        if (e == VK_KHR_SWAPCHAIN_EXTENSION_NAME && !d->swapchain_ext)
        {
            bool other = false;
            for (auto& x : W.phys)
            {
                other |= x.swapchain_ext;
            }
            if (!other)
            {
                W.fatal = "no presentable device"; // nothing to choose from: stopping is the right answer
            }
            return VK_ERROR_EXTENSION_NOT_PRESENT;
        }
    }
    if (info->queueCreateInfoCount == 0)
    {
        W.violate("cap.queues", "device created without queues");
    }
    W.device_presents = presents;
    std::set<uint32_t> families;
    readable(info->pQueueCreateInfos, info->queueCreateInfoCount, "vkCreateDevice");
    for (uint32_t i = 0; i != info->queueCreateInfoCount; ++i)
    {
        auto& q = info->pQueueCreateInfos[i];
        if (q.sType != VK_STRUCTURE_TYPE_DEVICE_QUEUE_CREATE_INFO)
        {
            W.violate("cap.queues", "queue create info %u is malformed", i);
        }
        if (q.queueFamilyIndex >= d->families.size())
        {
            W.violate("cap.queues", "queue family %u does not exist on the device", q.queueFamilyIndex);
            return VK_ERROR_INITIALIZATION_FAILED;
        }
        if (!families.insert(q.queueFamilyIndex).second)
        {
            W.violate("cap.queues", "queue family %u is requested twice", q.queueFamilyIndex);
        }
        if (q.queueCount == 0 || q.queueCount > d->families[q.queueFamilyIndex].queueCount)
        {
            W.violate("cap.queues", "%u queues requested from a family with %u", q.queueCount,
                      d->families[q.queueFamilyIndex].queueCount);
        }
        if (!readable(q.pQueuePriorities, q.queueCount, "vkCreateDevice (queue priorities)") || !(q.pQueuePriorities[0] >= 0.0f && q.pQueuePriorities[0] <= 1.0f))
        {
            W.violate("cap.queues", "queue priority outside [0, 1]");
        }
        W.dev_queues.push_back(q);
    }
    W.dev_phys  = (uint32_t)(d - W.phys.data()) + 1;
    W.device_id = W.make<o_misc>(kind::device).id;
    *out        = W.to_handle<VkDevice>(W.device_id);
    W.log("  device on physical device %u", W.dev_phys - 1);
    return VK_SUCCESS;
}

void vkDestroyDevice(VkDevice d, VkAllocationCallbacks const*)
{
    ENTER("vkDestroyDevice");
    destroy(W.to_id(d), !d, kind::device, "vkDestroyDevice");
}

void vkGetDeviceQueue(VkDevice d, uint32_t family, uint32_t index, VkQueue* out)
{
    ENTER("vkGetDeviceQueue");
    check_device(d, "vkGetDeviceQueue");
    bool ok = false;
    for (auto& q : W.dev_queues)
    {
        ok |= q.queueFamilyIndex == family && index < q.queueCount;
    }
    if (!ok)
    {
        W.violate("cap.queues", "queue %u of family %u was not requested when the device was created", index, family);
    }
    for (size_t i = 0; i != W.objs.size(); ++i)
    {
        if (W.objs[i]->k == kind::queue && W.get<o_queue>((uint32_t)i + 1).family == family)
        {
            *out = W.to_handle<VkQueue>((uint32_t)i + 1);
            return;
        }
    }
    auto& q  = W.make<o_queue>();
    q.family = family;
    *out     = W.to_handle<VkQueue>(q.id);
}

VkResult vmaCreateAllocator(VmaAllocatorCreateInfo const* info, VmaAllocator* out)
{
    ENTER("vmaCreateAllocator");
    check_device(info->device, "vmaCreateAllocator");
    if (W.to_id(info->physicalDevice) != (W.dev_phys ? W.phys[W.dev_phys - 1].object_id : 0))
    {
        W.violate("cap.device-choice", "the allocator is created for another physical device than the logical device");
    }
    FAULT("vmaCreateAllocator", OOM);
    *out = W.to_handle<VmaAllocator>(W.make<o_misc>(kind::allocator).id);
    return VK_SUCCESS;
}
void vmaDestroyAllocator(VmaAllocator a)
{
    ENTER("vmaDestroyAllocator");
    destroy(W.to_id(a), !a, kind::allocator, "vmaDestroyAllocator");
}

// ------------------------------------------------------------------------------------------------ synchronisation
VkResult vkCreateFence(VkDevice d, VkFenceCreateInfo const* info, VkAllocationCallbacks const*, VkFence* out)
{
    ENTER("vkCreateFence");
    check_device(d, "vkCreateFence");
    FAULT("vkCreateFence", OOM);
    auto& f    = W.make<o_fence>();
    f.signaled = info->flags & VK_FENCE_CREATE_SIGNALED_BIT;
    *out       = W.to_handle<VkFence>(f.id);
    return VK_SUCCESS;
}
void vkDestroyFence(VkDevice d, VkFence f, VkAllocationCallbacks const*)
{
    ENTER("vkDestroyFence");
    check_device(d, "vkDestroyFence");
    destroy(W.to_id(f), !f, kind::fence, "vkDestroyFence");
}
VkResult vkResetFences(VkDevice d, uint32_t n, VkFence const* fs)
{
    ENTER("vkResetFences");
    check_device(d, "vkResetFences");
    if (n == 0)
    {
        W.violate("sync.zero-fences", "vkResetFences with no fence");
    }
    FAULT("vkResetFences", OOM);
    readable(fs, n, "vkResetFences");
    for (uint32_t i = 0; i != n; ++i)
    {
        if (auto* f = W.use<o_fence>(fs[i], kind::fence, "fence", "vkResetFences"))
        {
            if (f->pending)
            {
                W.violate("sync.reset-pending-fence", "a fence is reset while a submission that signals it is running");
            }
            f->signaled = false;
        }
    }
    return VK_SUCCESS;
}
VkResult vkGetFenceStatus(VkDevice d, VkFence h)
{
    ENTER("vkGetFenceStatus");
    check_device(d, "vkGetFenceStatus");
    FAULT("vkGetFenceStatus", OOM, VK_ERROR_DEVICE_LOST);
    auto* f = W.use<o_fence>(h, kind::fence, "fence", "vkGetFenceStatus");
    return f && f->signaled ? VK_SUCCESS : VK_NOT_READY;
}
VkResult vkWaitForFences(VkDevice d, uint32_t n, VkFence const* fs, VkBool32 all, uint64_t timeout)
{
    ENTER("vkWaitForFences");
    check_device(d, "vkWaitForFences");
    if (n == 0)
    {
        W.violate("sync.zero-fences", "vkWaitForFences with no fence");
        return VK_SUCCESS;
    }
    FAULT("vkWaitForFences", OOM, VK_ERROR_DEVICE_LOST);
    readable(fs, n, "vkWaitForFences");
    std::vector<uint32_t> ids;
    for (uint32_t i = 0; i != n; ++i)
    {
        if (auto* f = W.use<o_fence>(fs[i], kind::fence, "fence", "vkWaitForFences"))
        {
            ids.push_back(f->id);
        }
    }
    auto ready = [&] {
        size_t s = 0;
        for (auto id : ids)
        {
            s += W.get<o_fence>(id).signaled;
        }
        return all ? s == ids.size() : s > 0;
    };
    if (!ready())
    {
        W.count(n_fence_blocked);
    }
    uint64_t deadline = timeout > (1ull << 62) ? UINT64_MAX : W.now + timeout;
    while (!ready())
    {
        if (W.events.empty() || W.events.top().at > deadline)
        {
            if (deadline == UINT64_MAX)
            {
                W.violate("hang.fence", "the program waits for a fence that nothing will ever signal");
                W.finish();
            }
            W.now = deadline;
            return VK_TIMEOUT;
        }
        W.step();
    }
    return VK_SUCCESS;
}
VkResult vkCreateSemaphore(VkDevice d, VkSemaphoreCreateInfo const*, VkAllocationCallbacks const*, VkSemaphore* out)
{
    ENTER("vkCreateSemaphore");
    check_device(d, "vkCreateSemaphore");
    FAULT("vkCreateSemaphore", OOM);
    *out = W.to_handle<VkSemaphore>(W.make<o_semaphore>().id);
    return VK_SUCCESS;
}
void vkDestroySemaphore(VkDevice d, VkSemaphore s, VkAllocationCallbacks const*)
{
    ENTER("vkDestroySemaphore");
    check_device(d, "vkDestroySemaphore");
    if (destroy(W.to_id(s), !s, kind::semaphore, "vkDestroySemaphore"))
    {
        if (W.get<o_semaphore>(W.to_id(s)).pending > 0)
        {
            W.violate("life.destroy-in-flight", "vkDestroySemaphore: semaphore destroyed with operations pending");
        }
    }
}

static void idle_wait(char const* fn)
{
    bool ok = W.wait_until([] {
        for (auto& o : W.objs)
        {
            if (o->k == kind::queue && !static_cast<o_queue&>(*o).ops.empty())
            {
                return false;
            }
        }
        return true;
    });
    if (!ok)
    {
        W.violate("hang.idle", "%s never returns: queued work waits for a semaphore nothing will signal", fn);
        W.finish();
    }
}
VkResult vkQueueWaitIdle(VkQueue q)
{
    ENTER("vkQueueWaitIdle");
    W.use<o_queue>(q, kind::queue, "queue", "vkQueueWaitIdle");
    FAULT("vkQueueWaitIdle", OOM, VK_ERROR_DEVICE_LOST);
    idle_wait("vkQueueWaitIdle");
    return VK_SUCCESS;
}
VkResult vkDeviceWaitIdle(VkDevice d)
{
    ENTER("vkDeviceWaitIdle");
    check_device(d, "vkDeviceWaitIdle");
    FAULT("vkDeviceWaitIdle", OOM, VK_ERROR_DEVICE_LOST);
    idle_wait("vkDeviceWaitIdle");
    return VK_SUCCESS;
}

static o_semaphore* wait_semaphore(VkSemaphore h, char const* fn)
{
    auto* s = W.use<o_semaphore>(h, kind::semaphore, "wait semaphore", fn);
    if (!s)
    {
        return nullptr;
    }
    if (!s->logical)
    {
        W.violate("sync.wait-unsignaled", "%s waits on a semaphore that nothing queued before will signal", fn);
    }
    s->logical = false;
    ++s->pending;
    return s;
}

// -------------------------------------------------------------------------------- hazards between passes
// Work on one queue starts in submission order and overlaps unless a dependency says otherwise.
namespace
{
constexpr VkPipelineStageFlags early = VK_PIPELINE_STAGE_EARLY_FRAGMENT_TESTS_BIT;
constexpr VkPipelineStageFlags late  = VK_PIPELINE_STAGE_LATE_FRAGMENT_TESTS_BIT;
constexpr VkPipelineStageFlags color = VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT;
constexpr VkPipelineStageFlags all   = VK_PIPELINE_STAGE_ALL_COMMANDS_BIT | VK_PIPELINE_STAGE_ALL_GRAPHICS_BIT;
constexpr VkPipelineStageFlags top   = VK_PIPELINE_STAGE_TOP_OF_PIPE_BIT;
constexpr VkPipelineStageFlags bottom = VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT;

// The graphics stages in the order a draw passes through them
constexpr VkPipelineStageFlags pipeline[] = {top, 0x2, 0x4, 0x8, 0x10, 0x20, 0x40, early, VK_PIPELINE_STAGE_FRAGMENT_SHADER_BIT,
                                             late, color, bottom};

// The stages a mask names; memory accesses are limited to these.
VkPipelineStageFlags named(VkPipelineStageFlags m)
{
    return m & all ? early | late | color : m & (early | late | color);
}
// The stages whose execution a source mask covers: those named and all logically earlier ones.
VkPipelineStageFlags executed(VkPipelineStageFlags m)
{
    VkPipelineStageFlags r = 0, upto = 0;
    for (auto s : pipeline)
    {
        upto |= s;
        if (m & (s | all))
        {
            r = upto;
        }
    }
    return r;
}
// The stages a destination mask holds back: those named and all logically later ones.
VkPipelineStageFlags held_back(VkPipelineStageFlags m)
{
    VkPipelineStageFlags r = 0;
    for (auto s : pipeline)
    {
        if (r || m & (s | all))
        {
            r |= s;
        }
    }
    return r;
}
bool covers(VkAccessFlags mask, VkAccessFlags access)
{
    VkAccessFlags const writes = VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT;
    if (mask & VK_ACCESS_MEMORY_WRITE_BIT)
    {
        mask |= writes;
    }
    if (mask & VK_ACCESS_MEMORY_READ_BIT)
    {
        mask |= VK_ACCESS_COLOR_ATTACHMENT_READ_BIT | VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT;
    }
    return (mask & access) == access;
}

std::set<uint32_t> touched; // images with accesses that may still be running

void apply(dependency const& d)
{
    for (auto id : touched)
    {
        for (auto& a : W.get<o_image>(id).accesses)
        {
            bool const direct = executed(d.src) & a.stage;
            if (!direct && !(executed(d.src) & a.after))
            {
                continue;
            }
            a.after |= held_back(d.dst);
            if (direct && (named(d.src) & a.stage) && covers(d.src_access, a.access))
            {
                a.available = true;
            }
            if (a.available)
            {
                for (auto s : {early, late, color})
                {
                    if (named(d.dst) & s)
                    {
                        a.visible[s] |= d.dst_access;
                    }
                }
            }
        }
    }
}

void access_attachment(o_image& img, image_access const& n)
{
    for (auto& a : img.accesses)
    {
        char const* what = n.write ? "written" : "read";
        char const* kind = a.stage & color ? "color" : "depth or stencil";
        if (!(a.after & n.stage))
        {
            W.violate("order.execution", "a %s target is %s by a pass that need not wait for the pass before it (stage 0x%x to 0x%x)",
                      kind, what, a.stage, n.stage);
        }
        else if (!a.available || !covers(a.visible[n.stage], n.access))
        {
            W.violate("order.memory", "a %s target is %s while what the pass before it wrote is not %s to it", kind, what,
                      a.available ? "visible" : "available");
        }
    }
}

void submit_passes(o_command_buffer& cb)
{
    for (auto& p : cb.passes)
    {
        auto& rp = W.get<o_render_pass>(p.render_pass);
        auto& fb = W.get<o_framebuffer>(p.framebuffer);
        for (auto& d : p.before)
        {
            apply(d);
        }
        for (auto& d : rp.before)
        {
            apply(d);
        }
        std::map<uint32_t, std::vector<image_access>> now;
        auto use = [&](uint32_t i, bool ds) {
            if (i >= rp.att.size() || i >= fb.views.size())
            {
                return;
            }
            auto& a   = rp.att[i];
            auto& acc = now[W.get<o_image_view>(fb.views[i]).image];
            if (ds)
            {
                // An attachment without depth has a stencil to load, one without stencil a depth.
                bool const depth   = a.format != VK_FORMAT_S8_UINT;
                bool const stencil = a.format == VK_FORMAT_S8_UINT || a.format == VK_FORMAT_D24_UNORM_S8_UINT;
                bool const load    = (!depth || a.loadOp == VK_ATTACHMENT_LOAD_OP_LOAD)
                                  && (!stencil || a.stencilLoadOp == VK_ATTACHMENT_LOAD_OP_LOAD);
                acc.push_back({early,
                               load ? VkAccessFlags(VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_READ_BIT)
                                    : VkAccessFlags(VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT),
                               !load});
                acc.push_back({late, VK_ACCESS_DEPTH_STENCIL_ATTACHMENT_WRITE_BIT, true});
            }
            else
            {
                if (a.loadOp == VK_ATTACHMENT_LOAD_OP_LOAD)
                {
                    acc.push_back({color, VK_ACCESS_COLOR_ATTACHMENT_READ_BIT, false});
                }
                acc.push_back({color, VK_ACCESS_COLOR_ATTACHMENT_WRITE_BIT, true});
            }
        };
        for (auto& r : rp.color)
        {
            use(r.attachment, false);
        }
        if (rp.has_ds)
        {
            use(rp.ds.attachment, true);
        }
        for (auto& [id, acc] : now)
        {
            auto& img = W.get<o_image>(id);
            if (!img.accesses.empty())
            {
                W.count(n_target_rewritten);
                access_attachment(img, acc.front()); // within a pass, the others follow
            }
            img.accesses.assign(1, acc.back()); // within a pass, the last write follows the others
            touched.insert(id);
        }
        for (auto& d : rp.after)
        {
            apply(d);
        }
    }
    for (auto& d : cb.open_barriers)
    {
        apply(d);
    }
}
} // namespace

VkResult vkQueueSubmit(VkQueue qh, uint32_t n, VkSubmitInfo const* infos, VkFence fh)
{
    ENTER("vkQueueSubmit");
    no_work_after_quit("vkQueueSubmit");
    auto* q = W.use<o_queue>(qh, kind::queue, "queue", "vkQueueSubmit");
    if (!q)
    {
        return VK_SUCCESS;
    }
    o_fence* fence = nullptr;
    if (fh)
    {
        fence = W.use<o_fence>(fh, kind::fence, "fence", "vkQueueSubmit");
        if (fence && fence->signaled)
        {
            W.violate("sync.submit-signaled-fence", "vkQueueSubmit with a fence that is already signaled");
        }
        if (fence && fence->pending)
        {
            W.violate("sync.submit-pending-fence", "vkQueueSubmit with a fence another submission will signal");
        }
    }
    FAULT("vkQueueSubmit", OOM, VK_ERROR_DEVICE_LOST);
    if (W.loop_done)
    {
        W.violate("quit.work-after", "work is submitted after the event loop returned");
    }
    W.count(n_submits);
    if (n > 1)
    {
        W.count(n_multi_window_submit);
    }
    W.log("  submit of %u batches", n);
    readable(infos, n, "vkQueueSubmit");
    for (uint32_t i = 0; i != n; ++i)
    {
        readable(infos[i].pWaitSemaphores, infos[i].waitSemaphoreCount, "vkQueueSubmit (wait semaphores)");
        readable(infos[i].pWaitDstStageMask, infos[i].waitSemaphoreCount, "vkQueueSubmit (wait stages)");
        readable(infos[i].pCommandBuffers, infos[i].commandBufferCount, "vkQueueSubmit (command buffers)");
        readable(infos[i].pSignalSemaphores, infos[i].signalSemaphoreCount, "vkQueueSubmit (signal semaphores)");
    }
    // Nothing to order with work that has ended.
    for (auto it = touched.begin(); it != touched.end();)
    {
        auto& img = W.get<o_image>(*it);
        if (!img.in_flight)
        {
            img.accesses.clear();
            it = touched.erase(it);
        }
        else
        {
            ++it;
        }
    }
    std::vector<gpu_op> ops;
    for (uint32_t i = 0; i != n; ++i)
    {
        auto& si = infos[i];
        gpu_op op;
        op.frame = W.frame;
        bool writes_swapchain = false;
        if (si.sType != VK_STRUCTURE_TYPE_SUBMIT_INFO)
        {
            W.violate("sync.submit-info", "malformed submit info");
        }
        // Waits have to be recorded before signals of the same batch.
        std::vector<VkPipelineStageFlags> stages;
        for (uint32_t j = 0; j != si.waitSemaphoreCount; ++j)
        {
            if (auto* s = wait_semaphore(si.pWaitSemaphores[j], "vkQueueSubmit"))
            {
                if (s->by_queue)
                {
                    apply({all, si.pWaitDstStageMask[j], VK_ACCESS_MEMORY_WRITE_BIT | VK_ACCESS_MEMORY_READ_BIT,
                           VK_ACCESS_MEMORY_WRITE_BIT | VK_ACCESS_MEMORY_READ_BIT});
                }
                op.waits.push_back(s->id);
                W.reference(op, s->id);
                stages.push_back(si.pWaitDstStageMask[j]);
            }
        }
        for (uint32_t j = 0; j != si.commandBufferCount; ++j)
        {
            auto* cb = W.use<o_command_buffer>(si.pCommandBuffers[j], kind::command_buffer, "command buffer", "vkQueueSubmit");
            if (!cb)
            {
                continue;
            }
            switch (cb->state)
            {
            case cb_state::executable:
                break;
            case cb_state::pending:
                W.violate("life.submit-pending", "a command buffer is submitted while the GPU still executes it");
                continue;
            default:
                W.violate("life.submit-not-executable", "a command buffer is submitted that has not been recorded");
                continue;
            }
            if (W.get<o_command_pool>(cb->pool).family != q->family)
            {
                W.violate("cap.queue-family", "a command buffer is submitted to a queue of another family than its pool");
            }
            for (auto id : cb->uses)
            {
                if (!W.objs[id - 1]->alive)
                {
                    W.violate("life.submit-destroyed", "a command buffer that uses a destroyed %s is submitted",
                              kind_name(W.objs[id - 1]->k));
                }
            }
            if (!cb->passes.empty() && !(W.phys[W.dev_phys - 1].families[q->family].queueFlags & VK_QUEUE_GRAPHICS_BIT))
            {
                W.violate("cap.queue-family", "a render pass is submitted to a queue without graphics support");
            }
            cb->state = cb_state::pending;
            op.cbs.push_back(cb->id);
            W.reference(op, cb->id);
            for (auto id : cb->uses)
            {
                W.reference(op, id);
                if (W.objs[id - 1]->k == kind::swapchain)
                {
                    writes_swapchain = true;
                }
            }
            // The image rendered must be the one whose acquire semaphore this batch (or an earlier wait) consumed.
            for (auto id : cb->uses)
            {
                if (W.objs[id - 1]->k != kind::image)
                {
                    continue;
                }
                auto& img = W.get<o_image>(id);
                if (img.swapchain && img.acquire_sem)
                {
                    if (std::find(op.waits.begin(), op.waits.end(), img.acquire_sem) != op.waits.end())
                    {
                        img.acquire_sem = 0;
                    }
                    else
                    {
                        W.violate("sync.no-acquire-wait",
                                  "a batch renders to a swapchain image without waiting for the semaphore of its acquire");
                    }
                }
            }
        }
        for (auto cbid : op.cbs)
        {
            submit_passes(W.get<o_command_buffer>(cbid));
        }
        if (writes_swapchain)
        {
            // The layout transition of a swapchain image at the start of a pass must not precede the end of the wait.
            VkPipelineStageFlags const everything = VK_PIPELINE_STAGE_ALL_COMMANDS_BIT | VK_PIPELINE_STAGE_TOP_OF_PIPE_BIT
                                                    | VK_PIPELINE_STAGE_ALL_GRAPHICS_BIT;
            VkPipelineStageFlags const after_wait
                = VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT | VK_PIPELINE_STAGE_BOTTOM_OF_PIPE_BIT
                  | VK_PIPELINE_STAGE_ALL_COMMANDS_BIT | VK_PIPELINE_STAGE_ALL_GRAPHICS_BIT;
            bool all_waited = true;
            for (auto st : stages)
            {
                all_waited &= (st & everything) != 0;
            }
            for (auto cbid : op.cbs)
            {
                std::set<uint32_t> seen;
                for (auto& p : W.get<o_command_buffer>(cbid).passes)
                {
                    auto& rp = W.get<o_render_pass>(p.render_pass);
                    auto& fb = W.get<o_framebuffer>(p.framebuffer);
                    for (auto& r : rp.color)
                    {
                        if (r.attachment >= rp.att.size() || r.attachment >= fb.views.size())
                        {
                            continue;
                        }
                        auto& img = W.get<o_image>(W.get<o_image_view>(fb.views[r.attachment]).image);
                        // Passes that follow the first of an image are ordered after it by that one's dependency.
                        if (!img.swapchain || !seen.insert(img.id).second || all_waited
                            || rp.att[r.attachment].initialLayout == r.layout)
                        {
                            continue;
                        }
                        if (!((rp.external | p.barriers) & after_wait))
                        {
                            W.violate("sync.transition",
                                      "the layout of a swapchain image is changed before the wait for its acquire has ended: "
                                      "no dependency of the pass follows color output");
                        }
                    }
                }
            }
            for (auto st : stages)
            {
                VkPipelineStageFlags const ok = VK_PIPELINE_STAGE_COLOR_ATTACHMENT_OUTPUT_BIT
                                                | VK_PIPELINE_STAGE_ALL_COMMANDS_BIT | VK_PIPELINE_STAGE_TOP_OF_PIPE_BIT
                                                | VK_PIPELINE_STAGE_ALL_GRAPHICS_BIT;
                if (!(st & ok))
                {
                    W.violate("sync.wait-stage", "the acquire semaphore does not block color output (stage mask 0x%x)", st);
                }
            }
        }
        for (uint32_t j = 0; j != si.signalSemaphoreCount; ++j)
        {
            auto* s = W.use<o_semaphore>(si.pSignalSemaphores[j], kind::semaphore, "signal semaphore", "vkQueueSubmit");
            if (!s)
            {
                continue;
            }
            if (s->logical)
            {
                W.violate("sync.signal-signaled", "a batch signals a semaphore that is already signaled or about to be");
                continue;
            }
            s->logical  = true;
            s->by_queue = true;
            ++s->pending;
            op.signals.push_back(s->id);
            W.reference(op, s->id);
        }
        ops.push_back(std::move(op));
    }
    if (ops.empty())
    {
        gpu_op op;
        op.frame = W.frame;
        ops.push_back(op);
    }
    if (fence)
    {
        fence->pending   = true;
        ops.back().fence = fence->id;
        W.reference(ops.back(), fence->id);
    }
    for (auto& op : ops)
    {
        q->ops.push_back(std::move(op));
    }
    W.pump(q->id);
    return VK_SUCCESS;
}

// ------------------------------------------------------------------------------------------------ resources
VkResult vkCreateImage(VkDevice d, VkImageCreateInfo const* info, VkAllocationCallbacks const*, VkImage* out)
{
    ENTER("vkCreateImage");
    check_device(d, "vkCreateImage");
    FAULT("vkCreateImage", OOM);
    auto& i  = W.make<o_image>();
    i.format = info->format;
    i.w      = info->extent.width;
    i.h      = info->extent.height;
    *out     = W.to_handle<VkImage>(i.id);
    return VK_SUCCESS;
}
void vkDestroyImage(VkDevice d, VkImage i, VkAllocationCallbacks const*)
{
    ENTER("vkDestroyImage");
    check_device(d, "vkDestroyImage");
    destroy(W.to_id(i), !i, kind::image, "vkDestroyImage");
}
VkResult vkCreateImageView(VkDevice d, VkImageViewCreateInfo const* info, VkAllocationCallbacks const*, VkImageView* out)
{
    ENTER("vkCreateImageView");
    check_device(d, "vkCreateImageView");
    FAULT("vkCreateImageView", OOM);
    auto* img = W.use<o_image>(info->image, kind::image, "image", "vkCreateImageView");
    if (img && img->format != info->format)
    {
        W.violate("cap.view-format", "an image view of format %d is created for an image of format %d", (int)info->format,
                  (int)img->format);
    }
    if (info->subresourceRange.levelCount == 0 || info->subresourceRange.layerCount == 0
        || !(info->subresourceRange.aspectMask & VK_IMAGE_ASPECT_COLOR_BIT))
    {
        W.violate("cap.view-range", "a swapchain image view covers no color subresource");
    }
    auto& range = info->subresourceRange;
    if (range.baseMipLevel != 0 || range.baseArrayLayer != 0 || (range.levelCount > 1 && range.levelCount != VK_REMAINING_MIP_LEVELS)
        || (range.layerCount > 1 && range.layerCount != VK_REMAINING_ARRAY_LAYERS)
        || (info->viewType != VK_IMAGE_VIEW_TYPE_2D && info->viewType != VK_IMAGE_VIEW_TYPE_2D_ARRAY))
    {
        W.violate("cap.view-range", "an image view of type %d shows levels %u+%u and layers %u+%u of a two-dimensional image that has one of each",
                  (int)info->viewType, range.baseMipLevel, range.levelCount, range.baseArrayLayer, range.layerCount);
    }
    auto& v  = W.make<o_image_view>();
    v.image  = img ? img->id : 0;
    v.format = info->format;
    *out     = W.to_handle<VkImageView>(v.id);
    return VK_SUCCESS;
}
void vkDestroyImageView(VkDevice d, VkImageView v, VkAllocationCallbacks const*)
{
    ENTER("vkDestroyImageView");
    check_device(d, "vkDestroyImageView");
    destroy(W.to_id(v), !v, kind::image_view, "vkDestroyImageView");
}
VkResult vkCreateDescriptorPool(VkDevice d, VkDescriptorPoolCreateInfo const* info, VkAllocationCallbacks const*,
                                VkDescriptorPool* out)
{
    ENTER("vkCreateDescriptorPool");
    check_device(d, "vkCreateDescriptorPool");
    if (info->maxSets == 0 || info->poolSizeCount == 0)
    {
        W.violate("cap.descriptor-pool", "an empty descriptor pool is created");
    }
    FAULT("vkCreateDescriptorPool", OOM);
    *out = W.to_handle<VkDescriptorPool>(W.make<o_descriptor_pool>().id);
    return VK_SUCCESS;
}
void vkDestroyDescriptorPool(VkDevice d, VkDescriptorPool p, VkAllocationCallbacks const*)
{
    ENTER("vkDestroyDescriptorPool");
    check_device(d, "vkDestroyDescriptorPool");
    destroy(W.to_id(p), !p, kind::descriptor_pool, "vkDestroyDescriptorPool");
}

VkResult vkCreateRenderPass(VkDevice d, VkRenderPassCreateInfo const* info, VkAllocationCallbacks const*, VkRenderPass* out)
{
    ENTER("vkCreateRenderPass");
    check_device(d, "vkCreateRenderPass");
    FAULT("vkCreateRenderPass", OOM);
    readable(info->pAttachments, info->attachmentCount, "vkCreateRenderPass (attachments)");
    readable(info->pDependencies, info->dependencyCount, "vkCreateRenderPass (dependencies)");
    readable(info->pSubpasses, info->subpassCount, "vkCreateRenderPass (subpasses)");
    auto& rp = W.make<o_render_pass>();
    rp.att.assign(info->pAttachments, info->pAttachments + info->attachmentCount);
    if (info->subpassCount != 1)
    {
        W.violate("pass.subpass", "%u subpasses", info->subpassCount);
    }
    auto& sp = info->pSubpasses[0];
    readable(sp.pInputAttachments, sp.inputAttachmentCount, "vkCreateRenderPass (input attachments)");
    readable(sp.pPreserveAttachments, sp.preserveAttachmentCount, "vkCreateRenderPass (preserved attachments)");
    readable(sp.pColorAttachments, sp.colorAttachmentCount, "vkCreateRenderPass (color attachments)");
    rp.color.assign(sp.pColorAttachments, sp.pColorAttachments + sp.colorAttachmentCount);
    if (sp.pDepthStencilAttachment)
    {
        rp.has_ds = true;
        rp.ds     = *sp.pDepthStencilAttachment;
    }
    for (uint32_t i = 0; i != info->dependencyCount; ++i)
    {
        auto& dep = info->pDependencies[i];
        if (dep.srcSubpass == VK_SUBPASS_EXTERNAL && dep.dstSubpass == 0)
        {
            rp.external |= dep.srcStageMask;
            rp.before.push_back({dep.srcStageMask, dep.dstStageMask, dep.srcAccessMask, dep.dstAccessMask});
        }
        if (dep.srcSubpass == 0 && dep.dstSubpass == VK_SUBPASS_EXTERNAL)
        {
            rp.after.push_back({dep.srcStageMask, dep.dstStageMask, dep.srcAccessMask, dep.dstAccessMask});
        }
    }
    auto check_ref = [&](VkAttachmentReference r) {
        if (r.attachment != VK_ATTACHMENT_UNUSED && r.attachment >= rp.att.size())
        {
            W.violate("pass.reference", "a subpass references attachment %u of %zu", r.attachment, rp.att.size());
        }
        if (r.attachment != VK_ATTACHMENT_UNUSED
            && (r.layout == VK_IMAGE_LAYOUT_UNDEFINED || r.layout == VK_IMAGE_LAYOUT_PREINITIALIZED
                || r.layout == VK_IMAGE_LAYOUT_PRESENT_SRC_KHR || int(r.layout) < 0 || (int(r.layout) > 1000 && int(r.layout) < 1000000000)))
        {
            W.violate("pass.layout", "attachment %u is used in layout %d, which no attachment can have", r.attachment, int(r.layout));
        }
    };
    for (auto& r : rp.color)
    {
        check_ref(r);
    }
    if (rp.has_ds)
    {
        check_ref(rp.ds);
    }
    for (auto& a : rp.att)
    {
        if (a.finalLayout == VK_IMAGE_LAYOUT_UNDEFINED)
        {
            W.violate("pass.layout", "an attachment ends in layout UNDEFINED");
        }
    }
    *out = W.to_handle<VkRenderPass>(rp.id);
    return VK_SUCCESS;
}
void vkDestroyRenderPass(VkDevice d, VkRenderPass r, VkAllocationCallbacks const*)
{
    ENTER("vkDestroyRenderPass");
    check_device(d, "vkDestroyRenderPass");
    destroy(W.to_id(r), !r, kind::render_pass, "vkDestroyRenderPass");
}

static bool compatible(std::vector<VkAttachmentDescription> const& a, std::vector<VkAttachmentDescription> const& b)
{
    if (a.size() != b.size())
    {
        return false;
    }
    for (size_t i = 0; i != a.size(); ++i)
    {
        if (a[i].format != b[i].format || a[i].samples != b[i].samples)
        {
            return false;
        }
    }
    return true;
}

VkResult vkCreateFramebuffer(VkDevice d, VkFramebufferCreateInfo const* info, VkAllocationCallbacks const*, VkFramebuffer* out)
{
    ENTER("vkCreateFramebuffer");
    check_device(d, "vkCreateFramebuffer");
    FAULT("vkCreateFramebuffer", OOM);
    auto* rp = W.use<o_render_pass>(info->renderPass, kind::render_pass, "render pass", "vkCreateFramebuffer");
    readable(info->pAttachments, info->attachmentCount, "vkCreateFramebuffer");
    auto& fb = W.make<o_framebuffer>();
    W.count(n_framebuffer_created);
    fb.render_pass = rp ? rp->id : 0;
    fb.w           = info->width;
    fb.h           = info->height;
    if (rp)
    {
        fb.compat = rp->att;
        if (rp->att.size() != info->attachmentCount)
        {
            W.violate("pass.framebuffer-count", "a framebuffer with %u views is created for a render pass with %zu attachments",
                      info->attachmentCount, rp->att.size());
        }
    }
    for (uint32_t i = 0; i != info->attachmentCount; ++i)
    {
        auto* v = W.use<o_image_view>(info->pAttachments[i], kind::image_view, "attachment", "vkCreateFramebuffer");
        if (!v)
        {
            continue;
        }
        fb.views.push_back(v->id);
        if (rp && i < rp->att.size() && rp->att[i].format != v->format)
        {
            W.violate("pass.framebuffer-format", "attachment %u of a framebuffer has format %d, its render pass expects %d", i,
                      (int)v->format, (int)rp->att[i].format);
        }
        auto& img = W.get<o_image>(v->image);
        if (info->width > img.w || info->height > img.h)
        {
            W.violate("pass.framebuffer-size", "a %ux%u framebuffer is created on a %ux%u view", info->width, info->height,
                      img.w, img.h);
        }
    }
    if (info->width == 0 || info->height == 0 || info->layers != 1)
    {
        W.violate("pass.framebuffer-size", "a %ux%ux%u framebuffer is created", info->width, info->height, info->layers);
    }
    *out = W.to_handle<VkFramebuffer>(fb.id);
    return VK_SUCCESS;
}
void vkDestroyFramebuffer(VkDevice d, VkFramebuffer f, VkAllocationCallbacks const*)
{
    ENTER("vkDestroyFramebuffer");
    check_device(d, "vkDestroyFramebuffer");
    destroy(W.to_id(f), !f, kind::framebuffer, "vkDestroyFramebuffer");
}

// ------------------------------------------------------------------------------------------------ command buffers
VkResult vkCreateCommandPool(VkDevice d, VkCommandPoolCreateInfo const* info, VkAllocationCallbacks const*, VkCommandPool* out)
{
    ENTER("vkCreateCommandPool");
    check_device(d, "vkCreateCommandPool");
    FAULT("vkCreateCommandPool", OOM);
    bool ok = false;
    for (auto& q : W.dev_queues)
    {
        ok |= q.queueFamilyIndex == info->queueFamilyIndex;
    }
    if (!ok)
    {
        W.violate("cap.pool-family", "a command pool is created for queue family %u, which the device was not created with",
                  info->queueFamilyIndex);
    }
    auto& p  = W.make<o_command_pool>();
    p.flags  = info->flags;
    p.family = info->queueFamilyIndex;
    *out     = W.to_handle<VkCommandPool>(p.id);
    return VK_SUCCESS;
}
void vkDestroyCommandPool(VkDevice d, VkCommandPool p, VkAllocationCallbacks const*)
{
    ENTER("vkDestroyCommandPool");
    check_device(d, "vkDestroyCommandPool");
    if (destroy(W.to_id(p), !p, kind::command_pool, "vkDestroyCommandPool"))
    {
        for (auto id : W.get<o_command_pool>(W.to_id(p)).cbs)
        {
            W.kill(*W.objs[id - 1]);
        }
    }
}
VkResult vkResetCommandPool(VkDevice d, VkCommandPool h, VkCommandPoolResetFlags)
{
    ENTER("vkResetCommandPool");
    check_device(d, "vkResetCommandPool");
    FAULT("vkResetCommandPool", OOM);
    auto* p = W.use<o_command_pool>(h, kind::command_pool, "command pool", "vkResetCommandPool");
    if (!p)
    {
        return VK_SUCCESS;
    }
    for (auto id : p->cbs)
    {
        auto& cb = W.get<o_command_buffer>(id);
        if (!cb.alive)
        {
            continue;
        }
        if (cb.state == cb_state::pending)
        {
            W.violate("life.reset-in-flight", "a command pool is reset while the GPU executes one of its command buffers");
            continue;
        }
        cb.state = cb_state::initial;
        cb.passes.clear();
        cb.uses.clear();
    }
    return VK_SUCCESS;
}
VkResult vkAllocateCommandBuffers(VkDevice d, VkCommandBufferAllocateInfo const* info, VkCommandBuffer* out)
{
    ENTER("vkAllocateCommandBuffers");
    check_device(d, "vkAllocateCommandBuffers");
    FAULT("vkAllocateCommandBuffers", OOM);
    auto* p = W.use<o_command_pool>(info->commandPool, kind::command_pool, "command pool", "vkAllocateCommandBuffers");
    for (uint32_t i = 0; i != info->commandBufferCount; ++i)
    {
        auto& cb = W.make<o_command_buffer>();
        cb.pool  = p ? p->id : 0;
        if (p)
        {
            W.get<o_command_pool>(cb.pool).cbs.push_back(cb.id);
        }
        out[i] = W.to_handle<VkCommandBuffer>(cb.id);
    }
    return VK_SUCCESS;
}
void vkFreeCommandBuffers(VkDevice d, VkCommandPool ph, uint32_t n, VkCommandBuffer const* cbs)
{
    ENTER("vkFreeCommandBuffers");
    check_device(d, "vkFreeCommandBuffers");
    auto* p = W.use<o_command_pool>(ph, kind::command_pool, "command pool", "vkFreeCommandBuffers");
    for (uint32_t i = 0; i != n; ++i)
    {
        if (destroy(W.to_id(cbs[i]), !cbs[i], kind::command_buffer, "vkFreeCommandBuffers"))
        {
            auto& cb = W.get<o_command_buffer>(W.to_id(cbs[i]));
            if (p && cb.pool != p->id)
            {
                W.violate("life.free-wrong-pool", "a command buffer is freed from a pool it was not allocated from");
            }
            if (cb.pool)
            {
                auto& v = W.get<o_command_pool>(cb.pool).cbs;
                v.erase(std::remove(v.begin(), v.end(), cb.id), v.end());
            }
        }
    }
}
VkResult vkBeginCommandBuffer(VkCommandBuffer h, VkCommandBufferBeginInfo const* info)
{
    ENTER("vkBeginCommandBuffer");
    auto* cb = W.use<o_command_buffer>(h, kind::command_buffer, "command buffer", "vkBeginCommandBuffer");
    FAULT("vkBeginCommandBuffer", OOM);
    if (!cb)
    {
        return VK_SUCCESS;
    }
    bool resettable = W.get<o_command_pool>(cb->pool).flags & VK_COMMAND_POOL_CREATE_RESET_COMMAND_BUFFER_BIT;
    switch (cb->state)
    {
    case cb_state::pending:
        W.violate("life.record-in-flight", "a command buffer is recorded while the GPU still executes it");
        return VK_SUCCESS;
    case cb_state::recording:
        W.violate("life.begin-twice", "a command buffer that is being recorded is begun again");
        break;
    case cb_state::executable:
    case cb_state::invalid:
        if (!resettable)
        {
            W.violate("life.begin-without-reset", "a command buffer is begun again without resetting its pool");
        }
        break;
    default:
        break;
    }
    cb->state    = cb_state::recording;
    cb->one_time = info->flags & VK_COMMAND_BUFFER_USAGE_ONE_TIME_SUBMIT_BIT;
    cb->in_pass  = false;
    W.recording_pass = false;
    cb->barriers = 0;
    cb->passes.clear();
    cb->open_barriers.clear();
    cb->uses.clear();
    return VK_SUCCESS;
}
VkResult vkEndCommandBuffer(VkCommandBuffer h)
{
    ENTER("vkEndCommandBuffer");
    auto* cb = W.use<o_command_buffer>(h, kind::command_buffer, "command buffer", "vkEndCommandBuffer");
    if (!cb)
    {
        return VK_SUCCESS;
    }
    if (cb->state != cb_state::recording)
    {
        W.violate("life.end-not-recording", "vkEndCommandBuffer on a command buffer that is not being recorded");
    }
    if (cb->in_pass)
    {
        W.violate("pass.unterminated", "a command buffer ends inside a render pass");
    }
    FAULT("vkEndCommandBuffer", OOM);
    W.check_passes(*cb);
    cb->state = cb_state::executable;
    return VK_SUCCESS;
}
VkResult vkResetCommandBuffer(VkCommandBuffer h, VkCommandBufferResetFlags)
{
    ENTER("vkResetCommandBuffer");
    auto* cb = W.use<o_command_buffer>(h, kind::command_buffer, "command buffer", "vkResetCommandBuffer");
    FAULT("vkResetCommandBuffer", OOM);
    if (!cb)
    {
        return VK_SUCCESS;
    }
    if (cb->state == cb_state::pending)
    {
        W.violate("life.reset-in-flight", "a command buffer is reset while the GPU executes it");
        return VK_SUCCESS;
    }
    if (!(W.get<o_command_pool>(cb->pool).flags & VK_COMMAND_POOL_CREATE_RESET_COMMAND_BUFFER_BIT))
    {
        W.violate("life.begin-without-reset", "a command buffer of a pool without the reset flag is reset");
    }
    cb->state = cb_state::initial;
    cb->passes.clear();
    cb->open_barriers.clear();
    cb->uses.clear();
    return VK_SUCCESS;
}

void vkCmdBeginRenderPass(VkCommandBuffer h, VkRenderPassBeginInfo const* info, VkSubpassContents)
{
    ENTER("vkCmdBeginRenderPass");
    auto* cb = W.use<o_command_buffer>(h, kind::command_buffer, "command buffer", "vkCmdBeginRenderPass");
    auto* rp = W.use<o_render_pass>(info->renderPass, kind::render_pass, "render pass", "vkCmdBeginRenderPass");
    auto* fb = W.use<o_framebuffer>(info->framebuffer, kind::framebuffer, "framebuffer", "vkCmdBeginRenderPass");
    if (!cb || !rp || !fb)
    {
        if (cb)
        {
            cb->in_pass = true;
    W.recording_pass = true;
        }
        return;
    }
    if (cb->state != cb_state::recording || cb->in_pass)
    {
        W.violate("pass.nesting", "a render pass is begun outside of recording or inside another render pass");
    }
    if (!compatible(rp->att, fb->compat))
    {
        W.violate("pass.incompatible", "a render pass is begun on a framebuffer made for an incompatible render pass");
    }
    for (size_t i = 0; i < rp->att.size(); ++i)
    {
        if (rp->att[i].loadOp == VK_ATTACHMENT_LOAD_OP_CLEAR && i >= info->clearValueCount)
        {
            W.violate("pass.clear-count", "attachment %zu is cleared but only %u clear values are given", i,
                      info->clearValueCount);
        }
    }
    if (info->renderArea.extent.width > fb->w || info->renderArea.extent.height > fb->h)
    {
        W.violate("pass.area", "the render area exceeds the framebuffer");
    }
    readable(info->pClearValues, info->clearValueCount, "vkCmdBeginRenderPass (clear values)");
    recorded_pass p;
    p.render_pass = rp->id;
    p.framebuffer = fb->id;
    p.area        = info->renderArea;
    p.token       = W.current_token;
    p.barriers    = cb->barriers;
    p.before      = std::move(cb->open_barriers);
    cb->open_barriers.clear();
    for (uint32_t i = 0; i != info->clearValueCount; ++i)
    {
        p.clears.push_back(info->pClearValues[i]);
    }
    cb->uses.insert(rp->id);
    cb->uses.insert(fb->id);
    for (auto v : fb->views)
    {
        auto& view = W.get<o_image_view>(v);
        if (!view.alive)
        {
            W.violate("life.use-after-destroy", "vkCmdBeginRenderPass: the framebuffer's image view is destroyed");
        }
        cb->uses.insert(v);
        auto& img = W.get<o_image>(view.image);
        if (!img.alive)
        {
            W.violate("life.use-after-destroy", "vkCmdBeginRenderPass: the image behind an attachment is destroyed");
        }
        cb->uses.insert(img.id);
        if (img.swapchain)
        {
            cb->uses.insert(img.swapchain);
            if (!img.acquired)
            {
                W.violate("route.render-unacquired", "a render pass targets a swapchain image that is not acquired");
            }
        }
    }
    cb->passes.push_back(std::move(p));
    cb->in_pass = true;
    W.recording_pass = true;
    W.count(n_passes);
    if (rp->begun++)
    {
        W.count(n_render_pass_reused);
    }
    if (fb->begun++)
    {
        W.count(n_framebuffer_reused);
    }
    W.log("  pass with %zu attachments", fb->views.size());
}
void vkCmdEndRenderPass(VkCommandBuffer h)
{
    ENTER("vkCmdEndRenderPass");
    auto* cb = W.use<o_command_buffer>(h, kind::command_buffer, "command buffer", "vkCmdEndRenderPass");
    if (cb)
    {
        if (!cb->in_pass)
        {
            W.violate("pass.nesting", "a render pass is ended that was not begun");
        }
        cb->in_pass = false;
        W.recording_pass = false;
    }
}
void vkCmdPipelineBarrier(VkCommandBuffer h, VkPipelineStageFlags src, VkPipelineStageFlags dst, VkDependencyFlags,
                          uint32_t n_memory, VkMemoryBarrier const* memory, uint32_t, VkBufferMemoryBarrier const*,
                          uint32_t n_images, VkImageMemoryBarrier const* images)
{
    ENTER("vkCmdPipelineBarrier");
    if (auto* cb = W.use<o_command_buffer>(h, kind::command_buffer, "command buffer", "vkCmdPipelineBarrier"))
    {
        cb->barriers |= src;
        // A barrier on one image is taken to order all of them: this may miss a hazard, it raises none.
        cb->open_barriers.push_back({src, dst, 0, 0});
        for (uint32_t i = 0; i != n_memory; ++i)
        {
            cb->open_barriers.push_back({src, dst, memory[i].srcAccessMask, memory[i].dstAccessMask});
        }
        for (uint32_t i = 0; i != n_images; ++i)
        {
            cb->open_barriers.push_back({src, dst, images[i].srcAccessMask, images[i].dstAccessMask});
        }
    }
}

void vkCmdSetViewport(VkCommandBuffer h, uint32_t, uint32_t, VkViewport const*)
{
    ENTER("vkCmdSetViewport");
    W.use<o_command_buffer>(h, kind::command_buffer, "command buffer", "vkCmdSetViewport");
}
void vkCmdSetScissor(VkCommandBuffer h, uint32_t, uint32_t, VkRect2D const*)
{
    ENTER("vkCmdSetScissor");
    W.use<o_command_buffer>(h, kind::command_buffer, "command buffer", "vkCmdSetScissor");
}
void vkGetPhysicalDeviceFeatures(VkPhysicalDevice p, VkPhysicalDeviceFeatures* out)
{
    ENTER("vkGetPhysicalDeviceFeatures");
    phys_of(p, "vkGetPhysicalDeviceFeatures");
    memset(out, 0, sizeof *out);
}
PFN_vkVoidFunction vkGetDeviceProcAddr(VkDevice, char const*)
{
    ENTER("vkGetDeviceProcAddr");
    return nullptr;
}

// ------------------------------------------------------------------------------------------------ surfaces, swapchains
void vkDestroySurfaceKHR(VkInstance, VkSurfaceKHR h, VkAllocationCallbacks const*)
{
    ENTER("vkDestroySurfaceKHR");
    if (!destroy(W.to_id(h), !h, kind::surface, "vkDestroySurfaceKHR"))
    {
        return;
    }
    for (auto& o : W.objs)
    {
        if (o->k == kind::swapchain && o->alive && static_cast<o_swapchain&>(*o).surface == W.to_id(h))
        {
            W.violate("life.surface-order", "a surface is destroyed before a swapchain created for it");
        }
    }
}
static o_surface* query_surface(VkPhysicalDevice p, VkSurfaceKHR h, char const* fn)
{
    if (auto* d = phys_of(p, fn))
    {
        if (W.dev_phys && d != &W.phys[W.dev_phys - 1])
        {
            W.violate("cap.device-choice", "%s queries another physical device than the logical device", fn);
        }
    }
    return W.use<o_surface>(h, kind::surface, "surface", fn);
}
VkResult vkGetPhysicalDeviceSurfaceSupportKHR(VkPhysicalDevice p, uint32_t family, VkSurfaceKHR h, VkBool32* out)
{
    ENTER("vkGetPhysicalDeviceSurfaceSupportKHR");
    query_surface(p, h, "vkGetPhysicalDeviceSurfaceSupportKHR");
    FAULT("vkGetPhysicalDeviceSurfaceSupportKHR", OOM, VK_ERROR_SURFACE_LOST_KHR);
    auto& d = W.phys[W.dev_phys - 1];
    if (family >= d.families.size())
    {
        W.violate("cap.queue-family", "surface support queried for queue family %u of %zu", family, d.families.size());
        *out = VK_FALSE;
        return VK_SUCCESS;
    }
    *out = d.families[family].queueFlags & VK_QUEUE_GRAPHICS_BIT ? VK_TRUE : VK_FALSE;
    if (W.cfg.unsupported_surface)
    {
        *out = VK_FALSE;
        if (W.fatal.empty())
        {
            W.fatal = "the device cannot present to the surface";
            W.count(f_init_failed);
            W.log("FAULT surface not supported");
        }
    }
    return VK_SUCCESS;
}
VkResult vkGetPhysicalDeviceSurfaceCapabilitiesKHR(VkPhysicalDevice p, VkSurfaceKHR h, VkSurfaceCapabilitiesKHR* out)
{
    ENTER("vkGetPhysicalDeviceSurfaceCapabilitiesKHR");
    auto* s = query_surface(p, h, "vkGetPhysicalDeviceSurfaceCapabilitiesKHR");
    FAULT("vkGetPhysicalDeviceSurfaceCapabilitiesKHR", OOM, VK_ERROR_SURFACE_LOST_KHR);
    if (s)
    {
        s->last_caps = W.caps(*s);
        s->queried   = true;
        s->fresh     = true;
        *out         = s->last_caps;
        W.log("  caps %ux%u", out->currentExtent.width, out->currentExtent.height);
    }
    return VK_SUCCESS;
}
VkResult vkGetPhysicalDeviceSurfaceFormatsKHR(VkPhysicalDevice p, VkSurfaceKHR h, uint32_t* count, VkSurfaceFormatKHR* out)
{
    ENTER("vkGetPhysicalDeviceSurfaceFormatsKHR");
    auto* s = query_surface(p, h, "vkGetPhysicalDeviceSurfaceFormatsKHR");
    FAULT("vkGetPhysicalDeviceSurfaceFormatsKHR", OOM, VK_ERROR_SURFACE_LOST_KHR);
    auto& formats = s ? s->offer.formats : W.offer.formats;
    uint32_t n    = (uint32_t)formats.size();
    if (!out)
    {
        *count = n;
        return VK_SUCCESS;
    }
    uint32_t m = std::min(*count, n);
    std::copy_n(formats.begin(), m, out);
    *count = m;
    return m < n ? VK_INCOMPLETE : VK_SUCCESS;
}
VkResult vkGetPhysicalDeviceSurfacePresentModesKHR(VkPhysicalDevice p, VkSurfaceKHR h, uint32_t* count, VkPresentModeKHR* out)
{
    ENTER("vkGetPhysicalDeviceSurfacePresentModesKHR");
    auto* s = query_surface(p, h, "vkGetPhysicalDeviceSurfacePresentModesKHR");
    FAULT("vkGetPhysicalDeviceSurfacePresentModesKHR", OOM, VK_ERROR_SURFACE_LOST_KHR);
    auto& modes = s ? s->offer.modes : W.offer.modes;
    uint32_t n  = (uint32_t)modes.size();
    if (!out)
    {
        *count = n;
        return VK_SUCCESS;
    }
    uint32_t m = std::min(*count, n);
    std::copy_n(modes.begin(), m, out);
    *count = m;
    return m < n ? VK_INCOMPLETE : VK_SUCCESS;
}

VkResult vkCreateSwapchainKHR(VkDevice d, VkSwapchainCreateInfoKHR const* info, VkAllocationCallbacks const*,
                              VkSwapchainKHR* out)
{
    ENTER("vkCreateSwapchainKHR");
    check_device(d, "vkCreateSwapchainKHR");
    if (W.cfg.unsupported_surface)
    {
        W.violate("cap.surface", "a swapchain is created for a surface that the device cannot present to");
    }
    if (!W.device_presents)
    {
        W.violate("cap.device-extensions", "a swapchain is created on a device without the swapchain extension");
    }
    auto* s = W.use<o_surface>(info->surface, kind::surface, "surface", "vkCreateSwapchainKHR");
    if (!s)
    {
        return VK_ERROR_SURFACE_LOST_KHR;
    }
    uint32_t old = 0;
    if (info->oldSwapchain)
    {
        auto* o = W.use<o_swapchain>(info->oldSwapchain, kind::swapchain, "old swapchain", "vkCreateSwapchainKHR");
        if (o)
        {
            old = o->id;
            if (o->surface != s->id || o->retired)
            {
                W.violate("swap.old-swapchain", "the old swapchain is retired or belongs to another surface");
            }
            o->retired       = true;
            o->retired_frame = W.frame;
            W.count(n_swapchain_recreated);
        }
    }
    if (s->active && s->active != old && W.objs[s->active - 1]->alive)
    {
        W.violate("swap.window-in-use", "a second swapchain is created for a window without retiring the first");
        return VK_ERROR_NATIVE_WINDOW_IN_USE_KHR;
    }
    s->active = 0;
    FAULT("vkCreateSwapchainKHR", OOM, VK_ERROR_DEVICE_LOST, VK_ERROR_SURFACE_LOST_KHR,
          VK_ERROR_NATIVE_WINDOW_IN_USE_KHR, VK_ERROR_INITIALIZATION_FAILED);
    auto* w = W.window_by_id(s->window);
    // Format
    auto& formats = s->offer.formats;
    bool any      = formats.size() == 1 && formats[0].format == VK_FORMAT_UNDEFINED;
    bool ok = any, preferred = false;
    for (auto& f : formats)
    {
        ok |= f.format == info->imageFormat && f.colorSpace == info->imageColorSpace;
        preferred |= f.format == VK_FORMAT_B8G8R8A8_UNORM && f.colorSpace == VK_COLOR_SPACE_SRGB_NONLINEAR_KHR;
    }
    if (!ok || info->imageFormat == VK_FORMAT_UNDEFINED)
    {
        W.violate("cap.format", "surface format %d / color space %d is not advertised", (int)info->imageFormat,
                  (int)info->imageColorSpace);
    }
    else if (preferred && info->imageFormat != VK_FORMAT_B8G8R8A8_UNORM)
    {
        W.violate("cap.format", "the preferred surface format is advertised but format %d is used", (int)info->imageFormat);
    }
    // Present mode
    auto& modes   = s->offer.modes;
    auto has_mode = [&](VkPresentModeKHR m) { return std::find(modes.begin(), modes.end(), m) != modes.end(); };
    if (!has_mode(info->presentMode))
    {
        W.violate("cap.present-mode", "present mode %d is not advertised", (int)info->presentMode);
    }
    else if (W.cfg.vsync && has_mode(VK_PRESENT_MODE_FIFO_KHR) && info->presentMode != VK_PRESENT_MODE_FIFO_KHR)
    {
        W.violate("cap.present-mode", "vsync was requested but present mode %d is used", (int)info->presentMode);
    }
    else if (!W.cfg.vsync && has_mode(VK_PRESENT_MODE_MAILBOX_KHR) && info->presentMode != VK_PRESENT_MODE_MAILBOX_KHR)
    {
        W.violate("cap.present-mode", "mailbox is advertised and vsync off, but present mode %d is used",
                  (int)info->presentMode);
    }
    if (!s->queried)
    {
        W.violate("cap.not-queried", "a swapchain is created without querying the surface capabilities");
        s->last_caps = W.caps(*s);
    }
    if (!s->fresh && s->changed_frame < W.frame)
    {
        // The window changed in an earlier frame and nobody looked.
        auto now = W.caps(*s);
        auto ext = info->imageExtent;
        bool fits = now.currentExtent.width == 0xFFFFFFFFu
                        ? ext.width >= now.minImageExtent.width && ext.width <= now.maxImageExtent.width
                              && ext.height >= now.minImageExtent.height && ext.height <= now.maxImageExtent.height
                        : ext.width == now.currentExtent.width && ext.height == now.currentExtent.height;
        if (!fits || info->minImageCount < now.minImageCount || (now.maxImageCount && info->minImageCount > now.maxImageCount)
            || !(info->compositeAlpha & now.supportedCompositeAlpha) || !(info->preTransform & now.supportedTransforms))
        {
            W.violate("cap.stale", "a swapchain is created with what the surface offered before it changed in frame %llu",
                      (unsigned long long)s->changed_frame);
        }
    }
    auto& c = s->last_caps;
    if (info->minImageCount < c.minImageCount || (c.maxImageCount != 0 && info->minImageCount > c.maxImageCount))
    {
        W.violate("cap.image-count", "%u swapchain images requested, the surface supports %u to %u", info->minImageCount,
                  c.minImageCount, c.maxImageCount);
    }
    else if (!W.cfg.vsync && info->minImageCount < 3 && (c.maxImageCount == 0 || c.maxImageCount >= 3))
    {
        W.violate("cap.image-count", "vsync is off but only %u images are requested: not triple buffered", info->minImageCount);
    }
    auto e = info->imageExtent;
    if (e.width == 0 || e.height == 0)
    {
        W.violate("cap.extent", "a swapchain of zero size is created");
        return VK_ERROR_INITIALIZATION_FAILED;
    }
    if (c.currentExtent.width != 0xFFFFFFFFu)
    {
        if (e.width != c.currentExtent.width || e.height != c.currentExtent.height)
        {
            W.violate("cap.extent", "a %ux%u swapchain is created for a %ux%u surface", e.width, e.height,
                      c.currentExtent.width, c.currentExtent.height);
        }
    }
    else if (e.width < c.minImageExtent.width || e.width > c.maxImageExtent.width || e.height < c.minImageExtent.height
             || e.height > c.maxImageExtent.height)
    {
        W.violate("cap.extent", "a %ux%u swapchain is outside the supported extent range", e.width, e.height);
    }
    if (!(info->compositeAlpha & c.supportedCompositeAlpha))
    {
        W.violate("cap.alpha", "composite alpha mode 0x%x is not supported", info->compositeAlpha);
    }
    if (!(info->preTransform & c.supportedTransforms))
    {
        W.violate("cap.transform", "surface transform 0x%x is not supported", info->preTransform);
    }
    if (info->imageArrayLayers != 1 || !(info->imageUsage & VK_IMAGE_USAGE_COLOR_ATTACHMENT_BIT)
        || (info->imageUsage & ~c.supportedUsageFlags))
    {
        W.violate("cap.usage", "unsupported image usage 0x%x or layer count %u", info->imageUsage, info->imageArrayLayers);
    }
    auto& sc      = W.make<o_swapchain>();
    sc.surface    = s->id;
    sc.info       = *info;
    // Out of date at birth if the window changed after the capabilities were read
    auto cur  = W.caps(*s);
    bool same = cur.currentExtent.width == c.currentExtent.width && cur.currentExtent.height == c.currentExtent.height;
    if (same && cur.currentExtent.width == 0xFFFFFFFFu && w)
    {
        uint32_t cw = std::min(std::max(w->px_w(), c.minImageExtent.width), c.maxImageExtent.width);
        uint32_t chh = std::min(std::max(w->px_h(), c.minImageExtent.height), c.maxImageExtent.height);
        same = cw == e.width && chh == e.height;
    }
    sc.generation = same ? s->generation : 0;
    s->active     = sc.id;
    uint32_t n    = std::max(info->minImageCount, 2u);
    if (W.cfg.extra_images)
    {
        uint32_t extra = W.ch.choose("swapchain.extra", 3);
        if (extra)
        {
            W.count(f_extra_images);
        }
        n += extra;
        if (c.maxImageCount)
        {
            n = std::min(n, std::max(c.maxImageCount, 2u));
        }
    }
    uint32_t scid = sc.id;
    std::vector<uint32_t> ids;
    for (uint32_t i = 0; i != n; ++i)
    {
        auto& img     = W.make<o_image>();
        img.swapchain = scid;
        img.index     = i;
        img.format    = info->imageFormat;
        img.w         = e.width;
        img.h         = e.height;
        ids.push_back(img.id);
    }
    W.get<o_swapchain>(scid).images = ids;
    W.log("  swapchain #%u %ux%u, %u images", scid, e.width, e.height, n);
    *out = W.to_handle<VkSwapchainKHR>(scid);
    return VK_SUCCESS;
}
void vkDestroySwapchainKHR(VkDevice d, VkSwapchainKHR h, VkAllocationCallbacks const*)
{
    ENTER("vkDestroySwapchainKHR");
    check_device(d, "vkDestroySwapchainKHR");
    if (!destroy(W.to_id(h), !h, kind::swapchain, "vkDestroySwapchainKHR"))
    {
        return;
    }
    auto& sc = W.get<o_swapchain>(W.to_id(h));
    for (auto id : sc.images)
    {
        if (W.objs[id - 1]->in_flight)
        {
            W.violate("life.destroy-in-flight", "vkDestroySwapchainKHR: the GPU is still rendering to one of its images");
        }
        W.kill(*W.objs[id - 1]);
    }
    auto* s = W.find(sc.surface, kind::surface);
    if (s)
    {
        if (!s->alive)
        {
            W.violate("life.surface-order", "a swapchain is destroyed after its surface");
        }
        auto& su = static_cast<o_surface&>(*s);
        if (su.active == sc.id)
        {
            su.active = 0;
        }
    }
}
VkResult vkGetSwapchainImagesKHR(VkDevice d, VkSwapchainKHR h, uint32_t* count, VkImage* out)
{
    ENTER("vkGetSwapchainImagesKHR");
    check_device(d, "vkGetSwapchainImagesKHR");
    FAULT("vkGetSwapchainImagesKHR", OOM);
    auto* sc = W.use<o_swapchain>(h, kind::swapchain, "swapchain", "vkGetSwapchainImagesKHR");
    if (!sc)
    {
        *count = 0;
        return VK_SUCCESS;
    }
    uint32_t n = (uint32_t)sc->images.size();
    if (!out)
    {
        *count = n;
        return VK_SUCCESS;
    }
    uint32_t m = std::min(*count, n);
    for (uint32_t i = 0; i != m; ++i)
    {
        out[i] = W.to_handle<VkImage>(sc->images[i]);
    }
    *count = m;
    return m < n ? VK_INCOMPLETE : VK_SUCCESS;
}

VkResult vkAcquireNextImageKHR(VkDevice d, VkSwapchainKHR h, uint64_t timeout, VkSemaphore sh, VkFence fh, uint32_t* index)
{
    ENTER("vkAcquireNextImageKHR");
    no_work_after_quit("vkAcquireNextImageKHR");
    check_device(d, "vkAcquireNextImageKHR");
    auto* sc = W.use<o_swapchain>(h, kind::swapchain, "swapchain", "vkAcquireNextImageKHR");
    if (!sc)
    {
        return VK_ERROR_OUT_OF_DATE_KHR;
    }
    if (sc->retired)
    {
        W.violate("swap.acquire-retired", "an image is acquired from a retired swapchain");
        return VK_ERROR_OUT_OF_DATE_KHR;
    }
    o_semaphore* sem = nullptr;
    if (sh)
    {
        sem = W.use<o_semaphore>(sh, kind::semaphore, "semaphore", "vkAcquireNextImageKHR");
        if (sem && (sem->logical || sem->pending))
        {
            W.violate("sync.acquire-semaphore", "an image is acquired with a semaphore that is signaled or still in use");
        }
    }
    o_fence* fence = nullptr;
    if (fh)
    {
        fence = W.use<o_fence>(fh, kind::fence, "fence", "vkAcquireNextImageKHR");
        if (fence && (fence->signaled || fence->pending))
        {
            W.violate("sync.acquire-fence", "an image is acquired with a fence that is signaled or in use");
        }
    }
    if (!sem && !fence)
    {
        W.violate("sync.acquire-nothing", "an image is acquired with neither semaphore nor fence");
    }
    FAULT("vkAcquireNextImageKHR", VK_ERROR_DEVICE_LOST, VK_ERROR_SURFACE_LOST_KHR, OOM);
    auto& s = W.get<o_surface>(sc->surface);
    auto* w = W.window_by_id(s.window);
    if (W.cfg.spurious_ood && !W.quiet && W.ch.chance("pe.spurious_ood", 25))
    {
        ++s.generation;
        s.ood = !W.cfg.suboptimal || W.ch.chance("pe.spurious_ood.hard", 500);
        W.count(f_spurious_out_of_date);
    }
    VkResult result = VK_SUCCESS;
    if (sc->generation != s.generation)
    {
        if (s.ood || (w && w->minimised))
        {
            W.count(f_out_of_date_acquire);
            W.log("  OUT_OF_DATE");
            return VK_ERROR_OUT_OF_DATE_KHR;
        }
        result = VK_SUBOPTIMAL_KHR;
        W.count(f_suboptimal_acquire);
    }
    uint32_t scid = sc->id;
    auto free_images = [&] {
        std::vector<uint32_t> r;
        for (auto id : W.get<o_swapchain>(scid).images)
        {
            auto& img = W.get<o_image>(id);
            if (!img.acquired && !img.queued)
            {
                r.push_back(id);
            }
        }
        return r;
    };
    auto fr = free_images();
    if (fr.empty())
    {
        W.count(n_acquire_blocked);
        uint64_t deadline = timeout > (1ull << 62) ? UINT64_MAX : W.now + timeout;
        while ((fr = free_images()).empty())
        {
            if (W.events.empty() || W.events.top().at > deadline)
            {
                if (deadline == UINT64_MAX)
                {
                    W.violate("hang.acquire", "the program waits for a swapchain image that will never become available");
                    W.finish();
                }
                W.now = std::max(W.now, deadline);
                return timeout == 0 ? VK_NOT_READY : VK_TIMEOUT;
            }
            W.step();
        }
    }
    auto& img = W.get<o_image>(fr[W.ch.choose("pe.pick", (uint32_t)fr.size())]);
    if (w)
    {
        ++w->acquired_now;
    }
    img.acquired    = true;
    img.acquire_sem = sem ? sem->id : 0;
    img.accesses.clear(); // the presentation engine has handed it back
    img.content     = 0;
    static uint64_t acquire_no = 0;
    img.acquire_no  = ++acquire_no;
    img.pe_reading  = true;
    uint64_t delay  = 1000;
    if (W.cfg.late_release && W.ch.chance("pe.late", 300))
    {
        delay = 500'000 + 2'000'000ull * W.ch.choose("pe.late.len", 8);
        W.count(f_late_image_release);
    }
    uint32_t sid = 0, fid = 0, iid = img.id;
    if (sem)
    {
        sem->logical  = true;
        sem->by_queue = false;
        ++sem->pending;
        sid = sem->id;
    }
    if (fence)
    {
        fence->pending = true;
        fid            = fence->id;
    }
    W.after(delay, [sid, fid, iid] {
        W.get<o_image>(iid).pe_reading = false;
        if (sid)
        {
            signal_semaphore(sid);
        }
        if (fid)
        {
            W.get<o_fence>(fid).signaled = true;
            W.get<o_fence>(fid).pending  = false;
        }
    });
    *index = img.index;
    W.log("  acquired image %u of swapchain #%u (window %u)", img.index, sc->id, s.window);
    return result;
}

VkResult vkQueuePresentKHR(VkQueue qh, VkPresentInfoKHR const* info)
{
    ENTER("vkQueuePresentKHR");
    no_work_after_quit("vkQueuePresentKHR");
    auto* q = W.use<o_queue>(qh, kind::queue, "queue", "vkQueuePresentKHR");
    if (!q)
    {
        return VK_SUCCESS;
    }
    FAULT("vkQueuePresentKHR", VK_ERROR_DEVICE_LOST, OOM);
    VkResult lost = W.fault("vkQueuePresentKHR:surface", {VK_ERROR_SURFACE_LOST_KHR});
    if (W.loop_done)
    {
        W.violate("quit.work-after", "an image is presented after the event loop returned");
    }
    if (info->waitSemaphoreCount == 0)
    {
        W.violate("sync.present-no-wait", "an image is presented without waiting for its rendering");
    }
    readable(info->pWaitSemaphores, info->waitSemaphoreCount, "vkQueuePresentKHR (semaphores)");
    readable(info->pSwapchains, info->swapchainCount, "vkQueuePresentKHR (swapchains)");
    readable(info->pImageIndices, info->swapchainCount, "vkQueuePresentKHR (image indices)");
    std::vector<uint32_t> waits;
    for (uint32_t i = 0; i != info->waitSemaphoreCount; ++i)
    {
        if (auto* s = wait_semaphore(info->pWaitSemaphores[i], "vkQueuePresentKHR"))
        {
            waits.push_back(s->id);
        }
    }
    VkResult overall = VK_SUCCESS;
    for (uint32_t i = 0; i != info->swapchainCount; ++i)
    {
        VkResult r = VK_SUCCESS;
        auto* sc   = W.use<o_swapchain>(info->pSwapchains[i], kind::swapchain, "swapchain", "vkQueuePresentKHR");
        if (!sc)
        {
            continue;
        }
        uint32_t idx = info->pImageIndices[i];
        if (idx >= sc->images.size() || !W.get<o_image>(sc->images[idx]).acquired)
        {
            W.violate("swap.present-unacquired", "image %u is presented but not acquired", idx);
            continue;
        }
        auto& img    = W.get<o_image>(sc->images[idx]);
        auto& s      = W.get<o_surface>(sc->surface);
        auto* w      = W.window_by_id(s.window);
        img.acquired = false;
        if (w)
        {
            --w->acquired_now;
            if (w->expect_token == 0)
            {
                W.violate("route.present-twice", "window %u is presented a frame it did not render", s.window);
            }
        }
        if (W.cfg.spurious_ood && !W.quiet && W.ch.chance("pe.spurious_ood2", 20))
        {
            ++s.generation;
            s.ood = !W.cfg.suboptimal || W.ch.chance("pe.spurious_ood2.hard", 500);
            W.count(f_spurious_out_of_date);
        }
        bool stale = sc->generation != s.generation || sc->retired;
        if (lost)
        {
            r = lost;
        }
        else if (stale && (s.ood || (w && w->minimised)))
        {
            r = VK_ERROR_OUT_OF_DATE_KHR;
            W.count(f_out_of_date_present);
        }
        else if (stale)
        {
            r = VK_SUBOPTIMAL_KHR;
            W.count(f_suboptimal_present);
        }
        // The semaphore waits execute whatever the result is; a stale image goes back to its dead swapchain.
        gpu_op op;
        op.present = true;
        op.waits.swap(waits);
        op.window = s.window;
        op.frame  = w ? w->expect_token : 0;
        for (auto id : op.waits)
        {
            W.reference(op, id);
        }
        if (r == VK_SUCCESS || r == VK_SUBOPTIMAL_KHR)
        {
            img.queued   = true;
            op.swapchain = sc->id;
            op.image     = img.id;
            W.reference(op, sc->id);
            if (w)
            {
                ++w->presents;
                w->last_present_frame = W.frame;
                w->last_present_w     = img.w;
                w->last_present_h     = img.h;
            }
            W.count(n_presents);
        }
        else
        {
            img.queued = true; // handed back to a swapchain that is of no use any more
        }
        q->ops.push_back(std::move(op));
        W.log("  present image %u of swapchain #%u (window %u) -> %d", idx, sc->id, s.window, (int)r);
        if (w)
        {
            w->expect_token = 0;
        }
        if (info->pResults)
        {
            info->pResults[i] = r;
        }
        if (r < 0 || (r > 0 && overall == 0))
        {
            overall = r;
        }
    }
    W.pump(q->id);
    return overall;
}
} // extern "C"
