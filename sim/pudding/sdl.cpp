// Simulated SDL (windows, surfaces, ticks, mouse state) and console.
#include "world.hpp"

#include <algorithm>
#include <unistd.h>

using namespace sim;

namespace sim
{
extern char const* const window_system_extensions[] = {"VK_KHR_surface", "VK_KHR_xlib_surface", "VK_KHR_get_surface_capabilities2", "VK_KHR_display",
    "VK_SIM_window_system_0", "VK_SIM_window_system_1", "VK_SIM_window_system_2", "VK_SIM_window_system_3", "VK_SIM_window_system_4", "VK_SIM_window_system_5", "VK_SIM_window_system_6", "VK_SIM_window_system_7", "VK_SIM_window_system_8", "VK_SIM_window_system_9", "VK_SIM_window_system_10", "VK_SIM_window_system_11", "VK_SIM_window_system_12", "VK_SIM_window_system_13", "VK_SIM_window_system_14", "VK_SIM_window_system_15", "VK_SIM_window_system_16", "VK_SIM_window_system_17", "VK_SIM_window_system_18", "VK_SIM_window_system_19", "VK_SIM_window_system_20", "VK_SIM_window_system_21", "VK_SIM_window_system_22", "VK_SIM_window_system_23", "VK_SIM_window_system_24", "VK_SIM_window_system_25", "VK_SIM_window_system_26", "VK_SIM_window_system_27", "VK_SIM_window_system_28", "VK_SIM_window_system_29"};
uint32_t ticks_base  = 0;
int mouse_x          = 0;
int mouse_y          = 0;
uint32_t mouse_state = 0;
uint32_t ticks()
{
    return ticks_base + static_cast<uint32_t>(W.now / 1'000'000);
}
} // namespace sim

#define ENTER(fn)      \
    sim_scope scope__; \
    W.enter(fn);

extern "C" {
int SDL_Init(Uint32)
{
    ENTER("SDL_Init");
    return W.sdl_fault("SDL_Init") ? -1 : 0;
}
void SDL_Quit(void)
{
    ENTER("SDL_Quit");
}
char const* SDL_GetError(void)
{
    return "simulated SDL error";
}
int SDL_Vulkan_LoadLibrary(char const*)
{
    ENTER("SDL_Vulkan_LoadLibrary");
    return W.sdl_fault("SDL_Vulkan_LoadLibrary") ? -1 : 0;
}
void* SDL_Vulkan_GetVkGetInstanceProcAddr(void)
{
    ENTER("SDL_Vulkan_GetVkGetInstanceProcAddr");
    return reinterpret_cast<void*>(&vkGetInstanceProcAddr);
}
void SDL_Vulkan_UnloadLibrary(void)
{
    ENTER("SDL_Vulkan_UnloadLibrary");
}
SDL_bool SDL_Vulkan_GetInstanceExtensions(SDL_Window*, unsigned* count, char const** names)
{
    ENTER("SDL_Vulkan_GetInstanceExtensions");
    if (W.sdl_fault("SDL_Vulkan_GetInstanceExtensions"))
    {
        return SDL_FALSE;
    }
    uint32_t n = W.cfg.wm_extensions;
    if (names)
    {
        if (*count < n)
        {
            return SDL_FALSE;
        }
        std::copy_n(window_system_extensions, n, names);
    }
    *count = n;
    return SDL_TRUE;
}
SDL_Window* SDL_CreateWindow(char const* title, int, int, int w, int h, Uint32 flags)
{
    ENTER("SDL_CreateWindow");
    if (!(flags & SDL_WINDOW_VULKAN))
    {
        W.violate("cap.window-flags", "a window is created without Vulkan support");
    }
    if (W.sdl_fault("SDL_CreateWindow"))
    {
        return nullptr;
    }
    W.windows.emplace_back();
    auto& win     = W.windows.back();
    win.handle.id = static_cast<uint32_t>(W.windows.size());
    win.w         = w;
    win.h         = h;
    win.asked_w   = w;
    win.asked_h   = h;
    win.title     = title ? title : "";
    win.flags     = flags;
    if (W.cfg.own_sizes && (flags & SDL_WINDOW_FULLSCREEN || W.ch.chance("wm.own_size", 400)))
    {
        // A tiling window manager, or a fullscreen window on a display with modes of its own
        win.w = 160 + 32 * int(W.ch.choose("wm.own_w", 30));
        win.h = 128 + 32 * int(W.ch.choose("wm.own_h", 24));
        W.count(f_own_size);
    }
    if (W.cfg.minimise && W.ch.chance("wm.start_minimised", 250))
    {
        win.minimised = true;
        win.collapse  = W.ch.choose("wm.collapse", 3);
        W.count(f_start_minimised);
    }
    win.scale     = flags & SDL_WINDOW_ALLOW_HIGHDPI ? W.cfg.display_scale : 100;
    if (win.scale != 100)
    {
        W.count(f_high_dpi_display);
    }
    win.app       = W.constructing;
    W.log("  window %u for application %d", win.handle.id, win.app);
    return &win.handle;
}
static sim_window* win(SDL_Window* h, char const* fn)
{
    for (auto& w : W.windows)
    {
        if (&w.handle == h)
        {
            if (!w.alive)
            {
                W.violate("life.dead-window", "%s on a destroyed window", fn);
            }
            return &w;
        }
    }
    W.violate("life.dead-window", "%s on something that is not a window", fn);
    return nullptr;
}
void SDL_DestroyWindow(SDL_Window* h)
{
    ENTER("SDL_DestroyWindow");
    auto* w = win(h, "SDL_DestroyWindow");
    if (!w || !w->alive)
    {
        return;
    }
    if (w->surface && W.objs[w->surface - 1]->alive)
    {
        W.violate("life.window-order", "a window is destroyed before the Vulkan surface created on it");
    }
    w->alive = false;
}
Uint32 SDL_GetWindowID(SDL_Window* h)
{
    ENTER("SDL_GetWindowID");
    auto* w = win(h, "SDL_GetWindowID");
    return w ? w->handle.id : 0;
}
Uint32 SDL_GetWindowFlags(SDL_Window* h)
{
    ENTER("SDL_GetWindowFlags");
    auto* w = win(h, "SDL_GetWindowFlags");
    return w ? w->flags | (w->minimised ? SDL_WINDOW_MINIMIZED : 0) : 0;
}
void SDL_GetWindowSize(SDL_Window* h, int* w, int* hh)
{
    ENTER("SDL_GetWindowSize");
    auto* x = win(h, "SDL_GetWindowSize");
    if (w)
    {
        *w = x ? x->w : 0;
    }
    if (hh)
    {
        *hh = x ? x->h : 0;
    }
}
void SDL_Vulkan_GetDrawableSize(SDL_Window* h, int* w, int* hh)
{
    ENTER("SDL_Vulkan_GetDrawableSize");
    auto* x = win(h, "SDL_Vulkan_GetDrawableSize");
    if (w)
    {
        *w = x ? int(x->px_w()) : 0;
    }
    if (hh)
    {
        *hh = x ? int(x->px_h()) : 0;
    }
}
SDL_bool SDL_Vulkan_CreateSurface(SDL_Window* h, VkInstance inst, VkSurfaceKHR* out)
{
    ENTER("SDL_Vulkan_CreateSurface");
    auto* w = win(h, "SDL_Vulkan_CreateSurface");
    if (W.to_id(inst) != W.instance_id)
    {
        W.violate("life.garbage-handle", "SDL_Vulkan_CreateSurface: not the instance");
    }
    if (!w || W.sdl_fault("SDL_Vulkan_CreateSurface"))
    {
        return SDL_FALSE;
    }
    auto& s    = W.make<o_surface>();
    s.window   = w->handle.id;
    w->surface = s.id;
    s.offer    = W.cfg.varied_surfaces ? make_offer() : W.offer;
    *out       = W.to_handle<VkSurfaceKHR>(s.id);
    return SDL_TRUE;
}
int SDL_PollEvent(SDL_Event* e)
{
    ENTER("SDL_PollEvent");
    if (!W.fatal.empty())
    {
        W.violate("fault.swallowed", "the program carries on after %s", W.fatal.c_str());
        W.finish();
    }
    W.before_poll();
    memset(e, 0, sizeof *e);
    if (W.next_event(e))
    {
        return 1;
    }
    W.frame_boundary();
    return 0;
}
Uint32 SDL_GetMouseState(int* x, int* y)
{
    ENTER("SDL_GetMouseState");
    if (x)
    {
        *x = mouse_x;
    }
    if (y)
    {
        *y = mouse_y;
    }
    return mouse_state;
}
Uint32 SDL_GetTicks(void)
{
    ENTER("SDL_GetTicks");
    return ticks();
}
Uint64 SDL_GetPerformanceCounter(void)
{
    ENTER("SDL_GetPerformanceCounter");
    return W.now;
}
Uint64 SDL_GetPerformanceFrequency(void)
{
    return 1'000'000'000;
}
void SDL_PumpEvents(void)
{
    ENTER("SDL_PumpEvents");
}
int SDL_WaitEventTimeout(SDL_Event* e, int timeout)
{
    {
        ENTER("SDL_WaitEventTimeout");
        W.advance(uint64_t(timeout > 0 ? timeout : 0) * 1'000'000);
    }
    return SDL_PollEvent(e);
}
SDL_Window* SDL_GetWindowFromID(Uint32 id)
{
    ENTER("SDL_GetWindowFromID");
    for (auto& w : W.windows)
    {
        if (w.alive && w.handle.id == id)
        {
            return &w.handle;
        }
    }
    return nullptr;
}
void SDL_SetWindowTitle(SDL_Window* h, char const* title)
{
    ENTER("SDL_SetWindowTitle");
    if (auto* w = win(h, "SDL_SetWindowTitle"))
    {
        w->title = title ? title : "";
    }
}
char const* SDL_GetWindowTitle(SDL_Window* h)
{
    ENTER("SDL_GetWindowTitle");
    auto* w = win(h, "SDL_GetWindowTitle");
    return w ? w->title.c_str() : "";
}
void SDL_SetWindowSize(SDL_Window* h, int width, int height)
{
    ENTER("SDL_SetWindowSize");
    if (auto* w = win(h, "SDL_SetWindowSize"))
    {
        w->asked_w = width;
        w->asked_h = height;
        W.resize_window(*w, width, height);
    }
}
static void set_flag(SDL_Window* h, char const* fn, uint32_t flag, bool on)
{
    if (auto* w = win(h, fn))
    {
        w->flags = on ? w->flags | flag : w->flags & ~flag;
    }
}
void SDL_SetWindowResizable(SDL_Window* h, SDL_bool on)
{
    ENTER("SDL_SetWindowResizable");
    set_flag(h, "SDL_SetWindowResizable", SDL_WINDOW_RESIZABLE, on);
}
void SDL_SetWindowGrab(SDL_Window* h, SDL_bool on)
{
    ENTER("SDL_SetWindowGrab");
    set_flag(h, "SDL_SetWindowGrab", SDL_WINDOW_INPUT_GRABBED, on);
}
void SDL_SetWindowAlwaysOnTop(SDL_Window* h, SDL_bool on)
{
    ENTER("SDL_SetWindowAlwaysOnTop");
    set_flag(h, "SDL_SetWindowAlwaysOnTop", SDL_WINDOW_ALWAYS_ON_TOP, on);
}
int SDL_SetWindowFullscreen(SDL_Window* h, Uint32 flags)
{
    ENTER("SDL_SetWindowFullscreen");
    set_flag(h, "SDL_SetWindowFullscreen", SDL_WINDOW_FULLSCREEN, flags & SDL_WINDOW_FULLSCREEN);
    return 0;
}
void SDL_SetWindowPosition(SDL_Window* h, int, int)
{
    ENTER("SDL_SetWindowPosition");
    win(h, "SDL_SetWindowPosition");
}
void SDL_ShowWindow(SDL_Window* h)
{
    ENTER("SDL_ShowWindow");
    if (auto* w = win(h, "SDL_ShowWindow"))
    {
        w->flags = (w->flags & ~uint32_t(SDL_WINDOW_HIDDEN)) | SDL_WINDOW_SHOWN;
    }
}
void SDL_GetWindowPosition(SDL_Window* h, int* x, int* y)
{
    ENTER("SDL_GetWindowPosition");
    win(h, "SDL_GetWindowPosition");
    if (x)
    {
        *x = 0;
    }
    if (y)
    {
        *y = 0;
    }
}
int SDL_WaitEvent(SDL_Event* e)
{
    for (int i = 0; i != 100000; ++i)
    {
        if (SDL_PollEvent(e))
        {
            return 1;
        }
    }
    return 0;
}
SDL_bool SDL_HasEvents(Uint32, Uint32)
{
    ENTER("SDL_HasEvents");
    return SDL_FALSE;
}
SDL_bool SDL_HasEvent(Uint32 t)
{
    return SDL_HasEvents(t, t);
}
void SDL_FlushEvents(Uint32 min, Uint32 max)
{
    ENTER("SDL_FlushEvents");
    static Uint32 const handled[] = {SDL_QUIT, SDL_WINDOWEVENT, SDL_KEYDOWN, SDL_KEYUP, SDL_MOUSEMOTION, SDL_MOUSEBUTTONDOWN,
                                     SDL_MOUSEBUTTONUP, SDL_MOUSEWHEEL};
    for (auto t : handled)
    {
        if (W.in_loop && W.cfg.input && t >= min && t <= max)
        {
            W.violate(t == SDL_QUIT ? "quit.flushed" : "input.flushed", "queued events of type 0x%x are discarded unseen", t);
        }
    }
}
void SDL_FlushEvent(Uint32 t)
{
    SDL_FlushEvents(t, t);
}
Uint32 SDL_GetGlobalMouseState(int* x, int* y)
{
    // The windows are somewhere on the desktop
    ENTER("SDL_GetGlobalMouseState");
    if (x)
    {
        *x = mouse_x + 217;
    }
    if (y)
    {
        *y = mouse_y + 113;
    }
    return mouse_state;
}
int SDL_InitSubSystem(Uint32 f)
{
    return SDL_Init(f);
}
Uint32 SDL_WasInit(Uint32 f)
{
    return f;
}
void SDL_QuitSubSystem(Uint32) {}
void SDL_ClearError(void) {}
int SDL_PeepEvents(SDL_Event* events, int count, SDL_eventaction action, Uint32 min, Uint32 max)
{
    // Everything that is queued, in one go. Events of other kinds are left where they are, so none is taken then.
    if (action != SDL_GETEVENT || min > SDL_QUIT || max < SDL_USEREVENT)
    {
        return 0;
    }
    int n = 0;
    while (n != count && SDL_PollEvent(&events[n]))
    {
        ++n;
    }
    return n;
}
SDL_Keymod SDL_GetModState(void)
{
    return KMOD_NONE;
}
Uint64 SDL_GetTicks64(void)
{
    return SDL_GetTicks();
}
SDL_Window* SDL_GetKeyboardFocus(void)
{
    ENTER("SDL_GetKeyboardFocus");
    for (auto& w : W.windows)
    {
        if (w.alive)
        {
            return &w.handle;
        }
    }
    return nullptr;
}
SDL_Window* SDL_GetMouseFocus(void)
{
    return SDL_GetKeyboardFocus();
}
void SDL_HideWindow(SDL_Window* h)
{
    ENTER("SDL_HideWindow");
    if (auto* w = win(h, "SDL_HideWindow"))
    {
        w->flags = (w->flags & ~uint32_t(SDL_WINDOW_SHOWN)) | SDL_WINDOW_HIDDEN;
    }
}
void SDL_RaiseWindow(SDL_Window* h)
{
    ENTER("SDL_RaiseWindow");
    win(h, "SDL_RaiseWindow");
}
void SDL_Delay(Uint32 ms)
{
    ENTER("SDL_Delay");
    W.advance(uint64_t(ms) * 1'000'000);
}

void sim_console_write(char const* data, size_t size)
{
    sim_scope scope__;
    std::string s(data, size);
    while (!s.empty() && s.back() == '\n')
    {
        s.pop_back();
    }
    // Source positions are not behaviour.
    auto at = s.rfind(" [");
    if (at != std::string::npos && !s.empty() && s.back() == ']')
    {
        s.resize(at);
    }
    W.log("console: %s", s.c_str());
}
}
