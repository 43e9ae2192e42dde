// The simulated machine the real pudding sources run on: one discrete-event clock, a GPU with an in-order queue per
// family, a presentation engine per surface, a window manager that resizes / minimises windows, an input event
// queue and a console. All decisions come from sim::choices.
#pragma once
#include "../common/choice.hpp"
#include "../common/result.hpp"

#include <SDL.h>
#include <SDL_vulkan.h>
#include <vulkan/vulkan.h>
#include <vk_mem_alloc.h>

#include <cstdarg>
#include <deque>
#include <functional>
#include <map>
#include <memory>
#include <queue>
#include <set>
#include <string>
#include <vector>

struct SDL_Window
{
    uint32_t id;
};

namespace sim
{
// ---------------------------------------------------------------------------------------------- counters
enum counter
{
    c_none = 0,
#define SIM_COUNTER(x) x,
#include "counters.inc"
#undef SIM_COUNTER
    c_count
};
extern char const* const counter_names[];
extern int const counter_count;

// ---------------------------------------------------------------------------------------------- objects
enum class kind : uint8_t
{
    none, instance, physical_device, device, queue, semaphore, fence, command_buffer, command_pool, image, image_view,
    render_pass, framebuffer, descriptor_pool, surface, swapchain, messenger, allocator, memory
};

struct object
{
    kind k;
    uint32_t id      = 0;
    uint32_t slot    = 0; // what its handle is made of
    bool alive       = true;
    int in_flight    = 0; // number of unfinished GPU operations that reference the object
    int owner        = 0; // application (window) under construction when it was created, 0 = renderer
    uint64_t born    = 0; // frame number
    uint64_t died    = 0;
    explicit object(kind kk) : k{kk} {}
    virtual ~object() = default;
};

// A dependency between the work before and after it (a subpass dependency on earlier or later work, or a barrier)
struct dependency
{
    VkPipelineStageFlags src, dst;
    VkAccessFlags src_access, dst_access;
};
// One access to the memory of an image, with what the dependencies recorded since then have ordered after it
struct image_access
{
    VkPipelineStageFlags stage;
    VkAccessFlags access;
    bool write;
    VkPipelineStageFlags after = 0; // stages that start after it has ended
    bool available             = false;
    std::map<VkPipelineStageFlags, VkAccessFlags> visible;
};

struct o_semaphore : object
{
    o_semaphore() : object(kind::semaphore) {}
    bool logical  = false; // state after everything queued so far has executed
    bool signaled = false; // state on the device timeline
    int pending   = 0;     // operations queued and not yet executed (signals and waits)
    bool by_queue = false; // the pending signal is that of a batch
};
struct o_fence : object
{
    o_fence() : object(kind::fence) {}
    bool signaled = false;
    bool pending  = false;
};
struct o_image : object
{
    o_image() : object(kind::image) {}
    uint32_t swapchain = 0; // object id or 0
    uint32_t index     = 0;
    VkFormat format    = VK_FORMAT_UNDEFINED;
    uint32_t w = 0, h = 0;
    uint32_t samples     = 1;
    bool acquired        = false; // host side: acquired and not yet presented
    bool pe_reading      = false; // presentation engine has not released it yet
    bool queued          = false; // queued for / in presentation
    uint64_t acquire_no  = 0;
    VkImageLayout layout = VK_IMAGE_LAYOUT_UNDEFINED;
    uint64_t content     = 0; // token written by the last finished render pass
    uint32_t acquire_sem = 0;
    std::vector<image_access> accesses; // the latest, in submission order
};
struct o_image_view : object
{
    o_image_view() : object(kind::image_view) {}
    uint32_t image  = 0;
    VkFormat format = VK_FORMAT_UNDEFINED;
};
struct o_render_pass : object
{
    o_render_pass() : object(kind::render_pass) {}
    std::vector<VkAttachmentDescription> att;
    std::vector<VkAttachmentReference> color;
    bool has_ds = false;
    VkAttachmentReference ds{};
    VkPipelineStageFlags external = 0; // source stages of the dependencies on earlier work
    std::vector<dependency> before, after;
    uint32_t begun = 0;
};
struct o_framebuffer : object
{
    o_framebuffer() : object(kind::framebuffer) {}
    uint32_t render_pass = 0;
    std::vector<VkAttachmentDescription> compat;
    std::vector<uint32_t> views;
    uint32_t w = 0, h = 0;
    uint32_t begun = 0;
};
struct o_command_pool : object
{
    o_command_pool() : object(kind::command_pool) {}
    VkCommandPoolCreateFlags flags = 0;
    uint32_t family                = 0;
    std::vector<uint32_t> cbs;
};
struct recorded_pass
{
    uint32_t render_pass;
    uint32_t framebuffer;
    std::vector<VkClearValue> clears;
    VkRect2D area;
    uint64_t token;
    VkPipelineStageFlags barriers;
    std::vector<dependency> before; // the barriers recorded since the previous pass
};
enum class cb_state { initial, recording, executable, pending, invalid };
struct o_command_buffer : object
{
    o_command_buffer() : object(kind::command_buffer) {}
    uint32_t pool  = 0;
    cb_state state = cb_state::initial;
    bool one_time  = false;
    bool in_pass   = false;
    VkPipelineStageFlags barriers = 0; // source stages of the barriers recorded so far
    std::vector<dependency> open_barriers; // those recorded since the last pass
    std::vector<recorded_pass> passes;
    std::set<uint32_t> uses;
    uint64_t token = 0; // (application, frame) whose render() recorded it
};
// What a device offers for a surface
struct surface_offer
{
    std::vector<VkSurfaceFormatKHR> formats;
    std::vector<VkPresentModeKHR> modes;
    uint32_t caps_min = 1, caps_max = 0;
    VkCompositeAlphaFlagsKHR alpha = VK_COMPOSITE_ALPHA_OPAQUE_BIT_KHR;
    VkSurfaceTransformFlagBitsKHR transform = VK_SURFACE_TRANSFORM_IDENTITY_BIT_KHR;
    bool identity = true;
};
extern char const* const window_system_extensions[34];
void vary_limits(surface_offer& o);  // the part that may change whenever the window does
surface_offer make_offer();
struct o_surface : object
{
    surface_offer offer;
    o_surface() : object(kind::surface) {}
    uint32_t window     = 0;
    uint32_t generation = 1;
    bool ood            = true; // stale swapchains get OUT_OF_DATE (else SUBOPTIMAL)
    bool lost           = false;
    VkSurfaceCapabilitiesKHR last_caps{};
    bool queried   = false;
    bool fresh     = false; // queried since the last change
    uint32_t active = 0; // non-retired swapchain
    uint64_t changed_frame = 0;
};
struct o_swapchain : object
{
    o_swapchain() : object(kind::swapchain) {}
    uint32_t surface    = 0;
    uint32_t generation = 0;
    bool retired        = false;
    VkSwapchainCreateInfoKHR info{};
    std::vector<uint32_t> images;
    std::deque<uint32_t> present_q;
    uint32_t displayed    = 0; // image object id
    bool vblank_scheduled = false;
    uint64_t retired_frame = 0;
};
struct o_descriptor_pool : object { o_descriptor_pool() : object(kind::descriptor_pool) {} };
struct o_misc : object { explicit o_misc(kind k) : object(k) {} };

struct gpu_op
{
    bool present = false;
    std::vector<uint32_t> waits;
    std::vector<uint32_t> cbs;
    std::vector<uint32_t> signals;
    std::set<uint32_t> uses;
    uint32_t fence     = 0;
    uint32_t swapchain = 0;
    uint32_t image     = 0;
    uint64_t frame     = 0;
    bool running       = false;
    uint32_t window    = 0;
    bool last_of_submit = false;
};
struct o_queue : object
{
    o_queue() : object(kind::queue) {}
    uint32_t family = 0;
    std::deque<gpu_op> ops;
};

// ---------------------------------------------------------------------------------------------- topology
struct phys_device
{
    uint32_t object_id;
    VkPhysicalDeviceType type;
    uint32_t vendor;
    std::string name;
    bool swapchain_ext;
    std::vector<VkQueueFamilyProperties> families;
    std::vector<std::pair<uint64_t, bool>> heaps; // size, device local
};

struct sim_window
{
    SDL_Window handle{};
    bool alive = true;
    int w = 0, h = 0;
    bool minimised    = false;
    uint32_t collapse = 0; // what is left of a minimised window: nothing, its width, its height
    uint32_t surface  = 0;
    uint32_t flags    = 0;
    int asked_w = 0, asked_h = 0;
    std::string title;
    uint32_t scale    = 100; // pixels per 100 window units
    uint32_t px_w() const { return uint32_t(w) * scale / 100; }
    uint32_t px_h() const { return uint32_t(h) * scale / 100; }
    int app           = 0;
    // frame bookkeeping
    uint64_t renders        = 0; // render() callbacks
    uint64_t presents       = 0; // presents accepted
    uint64_t last_present_frame = 0;
    uint32_t last_present_w = 0, last_present_h = 0;
    int acquired_now        = 0;
    uint64_t expect_token   = 0; // token of the render() that has to be presented next
    uint64_t quiet_present_at = 0; // number of presents when the quiet phase began
};

struct expected_target
{
    uint32_t view;
    VkFormat format;
    uint32_t samples;
    bool depth, stencil, clear, load, store;
    int initial_layout, final_layout;
    float clear_value[4];
    float clear_depth;
    uint32_t clear_stencil;
    int w, h;
};
struct expected_pass
{
    std::vector<expected_target> targets;
};

struct config
{
    bool vsync          = true;
    bool validation     = false; // asked for
    bool renderdoc      = false;
    bool has_validation = false; // available
    bool has_renderdoc  = false;
    bool has_debug_utils = true;
    uint32_t wm_extensions = 2;
    bool unsupported_surface = false; // no queue family can present to the window's surface
    bool varied_surfaces = false;
    uint32_t windows    = 1;
    uint32_t frames     = 8;
    bool resizes        = false;
    bool spurious_ood   = false;
    bool minimise       = false;
    bool slow_gpu       = false;
    bool slow_pe        = false;
    bool host_jitter    = false;
    bool window_churn   = false;
    bool custom_targets = false;
    bool share_targets  = false;
    bool portrait_targets = false;
    bool idle_frames    = false;
    bool wide_passes    = false;
    bool multisample    = false;
    bool display_changes = false;
    bool mutate_targets = false;
    bool input          = false;
    bool wild_events    = false;
    bool extra_images   = false;
    bool wayland        = false; // surface reports no fixed extent
    bool late_release   = false; // acquire returns before the image is released
    bool alloc_fail     = false;
    uint32_t alloc_permille = 3;
    bool clock_wrap     = false;
    uint32_t display_scale = 100;
    bool high_dpi       = false; // windows ask for it
    bool own_sizes      = false; // the window system decides on the size of windows itself
    bool descriptors    = false; // windows of all kinds
    bool spares         = false; // windows without an application, moved around
    bool reuse_handles  = false;
    bool long_stalls    = false; // the machine stops for minutes or hours
    bool bursts         = false; // hundreds of input events at once
    bool suboptimal     = false; // stale swapchains report SUBOPTIMAL instead of OUT_OF_DATE
    bool quit_actions   = false;
    char const* fatal_func = nullptr;
    uint32_t fatal_index   = 0;
    uint32_t fatal_kind    = 0;
    uint8_t heap_fill      = 0;
};

struct stop_run
{
};

class world
{
public:
    choices ch;
    result_block* res = nullptr;
    FILE* trace       = nullptr;
    config cfg;
    std::string prop;

    // ---- time and events
    uint64_t now = 0;
    uint64_t seq = 0;
    struct event
    {
        uint64_t at, seq;
        std::function<void()> run;
        bool operator<(event const& o) const
        {
            return at != o.at ? at > o.at : seq > o.seq;
        }
    };
    std::priority_queue<event> events;
    void after(uint64_t d, std::function<void()> f)
    {
        events.push({now + d, seq++, std::move(f)});
    }
    void advance(uint64_t d);
    bool step(); // runs the next event, false if there is none

    // ---- logging / checking
    void log(char const* fmt, ...) __attribute__((format(printf, 2, 3)));
    void violate(char const* code, char const* fmt, ...) __attribute__((format(printf, 3, 4)));
    void count(counter c, uint32_t n = 1)
    {
        if (res)
        {
            res->counters[c] += n;
        }
    }
    [[noreturn]] void finish(); // end of run: flush the result block and leave the process
    void enter(char const* fn);  // common prologue of every simulated call

    // ---- objects
    std::vector<std::unique_ptr<object>> objs;
    template <typename T, typename... A>
    T& make(A&&... a)
    {
        objs.emplace_back(std::make_unique<T>(std::forward<A>(a)...));
        T& o    = static_cast<T&>(*objs.back());
        o.id    = static_cast<uint32_t>(objs.size());
        o.owner = constructing;
        o.born  = frame;
        auto& free = free_slots[o.k];
        if (cfg.reuse_handles && !free.empty())
        {
            o.slot = free.back();
            free.pop_back();
            slot_owner[o.slot - 1] = o.id;
            count(f_handle_reused);
        }
        else
        {
            slot_owner.push_back(o.id);
            o.slot = static_cast<uint32_t>(slot_owner.size());
        }
        return o;
    }
    // Handles are values: once an object is destroyed the next of its kind may get the same one.
    std::vector<uint32_t> slot_owner; // slot - 1 -> the object it named last
    std::map<kind, std::vector<uint32_t>> free_slots;
    void kill(object& o)
    {
        if (o.alive)
        {
            o.alive = false;
            o.died  = frame;
            free_slots[o.k].push_back(o.slot);
        }
    }
    template <typename H>
    H to_handle(uint32_t id) const
    {
        return reinterpret_cast<H>(static_cast<uintptr_t>(objs[id - 1]->slot) * 16 + 0x100000);
    }
    template <typename H>
    uint32_t to_id(H h) const
    {
        auto v = reinterpret_cast<uintptr_t>(h);
        if (v < 0x100010 || (v & 15) || v > 0x100000 + 16ull * 0xffffff)
        {
            return 0;
        }
        auto slot = static_cast<uint32_t>((v - 0x100000) / 16);
        return slot <= slot_owner.size() ? slot_owner[slot - 1] : 0;
    }
    object* find(uint32_t id, kind k)
    {
        if (id == 0 || id > objs.size() || objs[id - 1]->k != k)
        {
            return nullptr;
        }
        return objs[id - 1].get();
    }
    template <typename T>
    T& get(uint32_t id)
    {
        return static_cast<T&>(*objs[id - 1]);
    }
    // Resolves a handle the program passed to a call; reports garbage and dead handles.
    template <typename T, typename H>
    T* use(H h, kind k, char const* what, char const* fn);

    // ---- state
    uint64_t frame = 0; // iterations of the program's loop (completed event drains)
    int constructing = 0;
    bool in_init     = true;
    bool in_loop     = false;
    bool quit_sent   = false;
    bool device_presents = false; // created with the swapchain extension
    bool loop_done   = false;
    bool quiet       = false;
    uint64_t calls   = 0;
    int sim_depth    = 0;
    bool device_lost = false;
    std::string fatal;      // description of the fatal fault that was injected
    bool alloc_failed = false;
    bool beyond       = false; // more of something than the program supports: it may stop
    std::map<std::string, uint32_t> call_index;
    std::vector<phys_device> phys;
    uint32_t dev_phys = 0; // index + 1 of the physical device the logical device was created on
    uint32_t device_id = 0;
    std::vector<VkDeviceQueueCreateInfo> dev_queues;
    uint32_t instance_id = 0;
    bool debug_utils_on  = false;
    surface_offer offer;
    PFN_vkDebugUtilsMessengerCallbackEXT messenger = nullptr;
    bool in_messenger = false;
    std::deque<sim_window> windows;
    uint64_t outstanding_frames_max = 0;
    uint64_t last_event_sent        = 0;

    sim_window* window_by_id(uint32_t id)
    {
        for (auto& w : windows)
        {
            if (w.handle.id == id)
            {
                return &w;
            }
        }
        return nullptr;
    }

    // ---- gpu
    void pump(uint32_t queue_id);
    void finish_op(uint32_t queue_id);
    void present_exec(gpu_op& op);
    void schedule_vblank(o_swapchain& sc);
    void release_image(o_swapchain& sc, uint32_t image);
    bool wait_until(std::function<bool()> const& pred); // false = nothing can ever make it true
    std::set<uint64_t> unfinished_frames() const;
    void reference(gpu_op& op, uint32_t id);

    // ---- fault injection
    // Returns the error the call has to return, or VK_SUCCESS. `errors` lists what the specification allows.
    VkResult fault(char const* fn, std::initializer_list<VkResult> errors);
    bool sdl_fault(char const* fn);
    bool messenger_abort();

    // ---- window manager
    void resize_window(sim_window& w, int nw, int nh);
    VkExtent2D current_extent(sim_window const& w) const;
    VkSurfaceCapabilitiesKHR caps(o_surface const& s) const;

    // ---- hooks into the workload (app.cpp)
    void before_poll();                 // checks the callbacks caused by the previous event
    bool next_event(SDL_Event* e);      // the user / window manager / quit script
    void frame_boundary();              // the event queue has been drained: a frame is about to be rendered
    void check_passes(o_command_buffer& cb);
    void frame_checks();
    void snapshot_generations();

    std::vector<expected_pass> expected; // passes recorded by the render() callback that is running
    uint64_t current_token = 0;
    bool recording_pass    = false; // a command buffer is being recorded and inside of a render pass
    bool idle              = false; // the render callback that ran last rendered nothing to its window
    std::set<uint64_t> idle_tokens;
    bool in_render         = false;
    uint32_t rendering_window = 0;
};

extern world W;

struct sim_scope
{
    sim_scope()
    {
        ++W.sim_depth;
    }
    ~sim_scope()
    {
        --W.sim_depth;
    }
};
} // namespace sim
