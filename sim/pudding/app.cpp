// The simulated user: an application built on pudding's public interface, the input script, and the oracles that
// compare what the application observes with a reference model.
#include "world.hpp"

#include <pudding.hpp>
#include <image_view.hpp>
#include <render_target.hpp>
#include <renderer.hpp>

#include <algorithm>
#include <stdexcept>
#include <unistd.h>

namespace sim
{
extern uint32_t ticks_base;
extern int mouse_x, mouse_y;
extern uint32_t mouse_state;
uint32_t ticks();

struct real_scope // leaves the simulator: program code runs inside
{
    int saved;
    real_scope() : saved{W.sim_depth}
    {
        W.sim_depth = 0;
    }
    ~real_scope()
    {
        W.sim_depth = saved;
    }
};

enum cb_id
{
    cb_key_down, cb_key_up, cb_motion, cb_down_l, cb_down_m, cb_down_r, cb_up_l, cb_up_m, cb_up_r, cb_wheel, cb_shown,
    cb_hidden, cb_exposed, cb_moved, cb_resize, cb_min, cb_max, cb_restored, cb_enter, cb_leave, cb_focus_g, cb_focus_l,
    cb_close, cb_quit
};
static char const* const cb_names[] = {"on_key_down", "on_key_up", "on_mouse_motion", "on_mouse_down_left",
                                       "on_mouse_down_middle", "on_mouse_down_right", "on_mouse_up_left",
                                       "on_mouse_up_middle", "on_mouse_up_right", "on_mouse_wheel", "on_shown", "on_hidden",
                                       "on_exposed", "on_moved", "on_resize", "on_minimized", "on_maximized", "on_restored",
                                       "on_enter", "on_leave", "on_focus_gained", "on_focus_lost", "on_close", "on_quit"};

struct callback
{
    int app;
    int cb;
    int64_t a, b;
    bool operator==(callback const& o) const
    {
        return app == o.app && cb == o.cb && a == o.a && b == o.b;
    }
};

class sim_app;
struct app_slot
{
    sim_app* app = nullptr; // null when destroyed
    uint32_t window = 0;
    uint64_t died   = 0;
    uint32_t quits  = 0;
    bool alive_at_quit = false;
};
static std::deque<app_slot> apps; // index = application id - 1
static std::deque<SDL_Event> polled;   // handed to the program, not yet accounted for
static bool quit_event        = false; // handed to the program
static bool quit_reached      = false; // the program has acted upon it
static uint32_t polls_after_quit = 0;
static bool drained           = false; // the last poll returned "no event"
static uint64_t render_counter = 0;
static uint32_t events_in_drain = 0;
static uint32_t burst           = 0; // events the user has yet to cause before the queue is empty
static bool burst_drain         = false;
static uint64_t quiet_from      = 0;
static std::deque<SDL_Event> pending_events;
static std::map<int, uint32_t> keys_down; // reference model: key -> timestamp of the press
static std::map<int, uint32_t> keys_user; // what the user holds, key -> window of the press
// Letters, escape, arrow up, control; F1 and ':', 'a' and U+0161 share their low bits
static int const key_pool[] = {'a', 'b', 'w', 27, 0x40000052, 0x400000e0, 0x4000003a, 0x3a, 0x161};
constexpr uint32_t key_count = sizeof key_pool / sizeof key_pool[0];
static bool early_quit = false;
static uint32_t last_stamp = 0; // of the most recent event
static bool quit_now   = false;
static uint32_t const quiet_frames = 8;

static int create_app(int w, int h);
static void spare_windows();
static void destroy_app(int id, char const* why);
static bool next_expected(callback& want);
static void settle(char const* when);
static void match(callback const& got);

static int live_apps()
{
    int n = 0;
    for (auto& s : apps)
    {
        n += s.app != nullptr;
    }
    return n;
}

// ------------------------------------------------------------------------------------------------ offscreen targets
struct target
{
    std::unique_ptr<pd::image_view> view;
    std::unique_ptr<pd::image_view> spare;
    std::unique_ptr<pd::render_target> rt;
};

static VkImageView mint_view(VkFormat f, uint32_t w, uint32_t h)
{
    auto& img = W.make<o_image>();
    img.format = f;
    img.w      = w;
    img.h      = h;
    uint32_t iid = img.id;
    auto& v    = W.make<o_image_view>();
    v.image    = iid;
    v.format   = f;
    v.owner    = -1; // the application's own
    return W.to_handle<VkImageView>(v.id);
}

constexpr int big = 8192;

static pd::image_view mint_image_view(VkFormat f)
{
    // Larger than any window and not square; a pass uses the smallest of its targets as the first
    int level = int(W.ch.choose("target.level", 4)), w = big + 64 * level, v = big / 4 * 3 + 64 * level;
    if (W.cfg.portrait_targets)
    {
        std::swap(w, v);
    }
    VkImageView h = mint_view(f, w, v);
    real_scope r;
    return pd::image_view{static_cast<void*>(h), w, v};
}

class sim_app final : public pd::pudding
{
public:
    int id = 0;
    std::vector<std::unique_ptr<target>> targets;

    sim_app(pd::window_desc const& wd, int app_id) : pd::pudding{wd}, id{app_id} {}

    // ---- observed callbacks
    void note(int cb, int64_t a = 0, int64_t b = 0)
    {
        W.log("callback %s(%lld, %lld) of application %d", cb_names[cb], (long long)a, (long long)b, id);
        match({id, cb, a, b});
        act(cb);
    }
    void act(int cb)
    {
        // NOTE: may destroy *this for cb_close; nothing may follow.
        if (!W.cfg.window_churn || W.quiet || W.loop_done)
        {
            return;
        }
        if (cb == cb_quit && !W.cfg.quit_actions)
        {
            return;
        }
        if (cb == cb_close)
        {
            if (W.ch.chance("app.destroy_self", 700))
            {
                W.count(n_window_self_destroyed);
                destroy_app(id, "self");
            }
            return;
        }
        if (cb == cb_quit)
        {
            // Does nothing, goes away, closes others, both, or opens another one
            uint32_t quit = W.ch.choose("app.quit_action", 12);
            bool peers = quit >= 4 && quit <= 7, self = quit >= 1 && quit <= 4;
            while (peers && live_apps() > 1)
            {
                W.count(n_window_destroyed_on_quit);
                destroy_peer();
                peers = W.ch.chance("app.quit_peers", 300);
            }
            if (quit == 8 && live_apps() < 8)
            {
                W.count(n_window_created_on_quit);
                create_app(64 + 16 * W.ch.choose("app.w", 20), 64 + 16 * W.ch.choose("app.h", 20));
            }
            if (self)
            {
                W.count(n_window_self_destroyed);
                destroy_app(id, "self");
            }
            return;
        }
        if (W.cfg.spares && W.ch.chance("app.spares", 200))
        {
            spare_windows();
        }
        uint32_t what = W.ch.choose("app.action", 40);
        if (what == 1 && live_apps() < 4)
        {
            create_app(64 + 16 * W.ch.choose("app.w", 20), 64 + 16 * W.ch.choose("app.h", 20));
        }
        else if (what == 2 && live_apps() > 1)
        {
            destroy_peer();
        }
    }
    void destroy_peer()
    {
        std::vector<int> c;
        for (size_t i = 0; i != apps.size(); ++i)
        {
            if (apps[i].app && int(i) + 1 != id)
            {
                c.push_back(int(i) + 1);
            }
        }
        destroy_app(c[W.ch.choose("app.victim", (uint32_t)c.size())], "peer");
    }
    void on_quit() override
    {
        sim_scope s;
        if (!quit_event)
        {
            W.violate("quit.uninvited", "on_quit without a quit request");
        }
        settle("the quit request");
        check_state();
        ++apps[id - 1].quits;
        W.log("callback on_quit of application %d", id);
        act(cb_quit);
    }
    void on_key_down(int k) override { sim_scope s; note(cb_key_down, k); }
    void on_key_up(int k, uint32_t d) override { sim_scope s; note(cb_key_up, k, d); }
    void on_mouse_motion(int x, int y) override { sim_scope s; note(cb_motion, x, y); }
    void on_mouse_down_left(int x, int y) override { sim_scope s; note(cb_down_l, x, y); }
    void on_mouse_down_middle(int x, int y) override { sim_scope s; note(cb_down_m, x, y); }
    void on_mouse_down_right(int x, int y) override { sim_scope s; note(cb_down_r, x, y); }
    void on_mouse_up_left(int x, int y) override { sim_scope s; note(cb_up_l, x, y); }
    void on_mouse_up_middle(int x, int y) override { sim_scope s; note(cb_up_m, x, y); }
    void on_mouse_up_right(int x, int y) override { sim_scope s; note(cb_up_r, x, y); }
    void on_mouse_wheel(int x, int y) override { sim_scope s; note(cb_wheel, x, y); }
    void on_shown() override { sim_scope s; note(cb_shown); }
    void on_hidden() override { sim_scope s; note(cb_hidden); }
    void on_exposed() override { sim_scope s; note(cb_exposed); }
    void on_moved(int x, int y) override { sim_scope s; note(cb_moved, x, y); }
    void on_resize(int x, int y) override { sim_scope s; note(cb_resize, x, y); }
    void on_minimized() override { sim_scope s; note(cb_min); }
    void on_maximized() override { sim_scope s; note(cb_max); }
    void on_restored() override { sim_scope s; note(cb_restored); }
    void on_enter() override { sim_scope s; note(cb_enter); }
    void on_leave() override { sim_scope s; note(cb_leave); }
    void on_focus_gained() override { sim_scope s; note(cb_focus_g); }
    void on_focus_lost() override { sim_scope s; note(cb_focus_l); }
    void on_close() override { sim_scope s; note(cb_close); }

    // ---- rendering
    void ensure_targets()
    {
        if (!W.cfg.custom_targets || !targets.empty())
        {
            return;
        }
        static VkFormat const formats[] = {VK_FORMAT_R8G8B8A8_UNORM, VK_FORMAT_R8G8B8A8_UNORM, VK_FORMAT_R16G16B16A16_SFLOAT,
                                           VK_FORMAT_D32_SFLOAT, VK_FORMAT_D24_UNORM_S8_UINT, VK_FORMAT_S8_UINT};
        static uint8_t const samples[] = {4, 2, 8, 64};
        uint8_t sample_bits = W.cfg.multisample && W.ch.choose("target.multisample", 2) ? samples[W.ch.choose("target.samples", 4)] : 1;
        for (int n = 0; n != (W.cfg.wide_passes ? 14 : 6); ++n)
        {
            int i    = n < 6 ? n : n % 3; // any number of color targets
            auto t   = std::make_unique<target>();
            t->view  = std::make_unique<pd::image_view>(mint_image_view(formats[i]));
            t->spare = std::make_unique<pd::image_view>(mint_image_view(formats[i]));
            {
                real_scope r;
                t->rt = std::make_unique<pd::render_target>();
            }
            auto& rt          = *t->rt;
            rt.iv             = t->view.get();
            rt.format         = formats[i];
            rt.initial_layout = VK_IMAGE_LAYOUT_UNDEFINED;
            rt.depth          = i == 3 || i == 4;
            rt.stencil        = i >= 4;
            rt.final_layout   = i >= 3 ? VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL
                                       : VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL;
            rt.clear          = i != 1;
            rt.load           = false;
            rt.store          = true;
            rt.sample_count_bits = sample_bits;
            set_clear(rt, 0.125f * float(n + 1));
            targets.push_back(std::move(t));
        }
    }
    static void set_clear(pd::render_target& rt, float v)
    {
        if (rt.depth || rt.stencil)
        {
            rt.depth_stencil_clear.depth   = v;
            rt.depth_stencil_clear.stencil = static_cast<uint32_t>(v * 100);
        }
        else
        {
            rt.clear_value[0] = v;
            rt.clear_value[1] = v + 0.25f;
            rt.clear_value[2] = v + 0.5f;
            rt.clear_value[3] = 1.0f;
        }
    }
    void mutate()
    {
        if (!W.cfg.mutate_targets || targets.empty() || W.quiet)
        {
            return;
        }
        uint32_t what = W.ch.choose("target.mutate", 12);
        if (what == 0 || what > 7)
        {
            return;
        }
        auto& t  = *targets[W.ch.choose("target.which", (uint32_t)targets.size())];
        auto& rt = *t.rt;
        switch (what)
        {
        case 1: // attribute change followed by the documented reset of the identifier
            rt.clear = !rt.clear;
            break;
        case 2:
            rt.store = !rt.store;
            break;
        case 3:
            rt.load           = !rt.load;
            rt.initial_layout = rt.load ? rt.final_layout : VK_IMAGE_LAYOUT_UNDEFINED;
            break;
        case 4:
            rt.final_layout = rt.final_layout == VK_IMAGE_LAYOUT_GENERAL
                                  ? (rt.depth ? VK_IMAGE_LAYOUT_DEPTH_STENCIL_ATTACHMENT_OPTIMAL
                                              : VK_IMAGE_LAYOUT_COLOR_ATTACHMENT_OPTIMAL)
                                  : VK_IMAGE_LAYOUT_GENERAL;
            rt.initial_layout = rt.load ? rt.final_layout : VK_IMAGE_LAYOUT_UNDEFINED;
            break;
        case 5: // only the view changes: no reset needed
            W.count(n_target_view_swapped);
            std::swap(t.view, t.spare);
            rt.iv = t.view.get();
            return;
        case 6: // the view is replaced; the old one dies
        {
            W.count(n_target_view_swapped);
            auto fresh = mint_image_view(static_cast<VkFormat>(rt.format));
            real_scope r;
            *t.view = std::move(fresh);
            return;
        }
        case 7: // a new clear value
            set_clear(rt, 0.0625f * float(1 + W.ch.choose("target.clear", 8)));
            break;
        }
        W.count(n_target_mutated);
        real_scope r;
        rt.uid.reset();
    }

    // What the simulated GPU knows about a target
    static o_image const& image_of(pd::render_target const& rt)
    {
        return W.get<o_image>(W.get<o_image_view>(W.to_id(static_cast<VkImageView>(rt.iv->handle()))).image);
    }

    static expected_target expect(pd::render_target const& rt)
    {
        expected_target e{};
        e.view           = W.to_id(static_cast<VkImageView>(rt.iv->handle()));
        e.format         = static_cast<VkFormat>(rt.format);
        e.samples        = rt.sample_count_bits;
        e.depth          = rt.depth;
        e.stencil        = rt.stencil;
        e.clear          = rt.clear;
        e.load           = rt.load;
        e.store          = rt.store;
        e.initial_layout = rt.initial_layout;
        e.final_layout   = rt.final_layout;
        memcpy(e.clear_value, rt.clear_value, sizeof e.clear_value);
        e.clear_depth   = rt.depth_stencil_clear.depth;
        e.clear_stencil = rt.depth_stencil_clear.stencil;
        e.w             = int(image_of(rt).w);
        e.h             = int(image_of(rt).h);
        return e;
    }

    // The application whose targets a pass is to use: mostly this one
    sim_app& lender();

    void render(pd::cmd_stream& cs, pd::render_target const& surface) override
    {
        sim_scope scope;
        W.log("render of application %d", id);
        if (!drained)
        {
            W.violate("input.render-before-drain", "a frame is rendered while input events are still queued");
        }
        if (W.loop_done || W.quit_sent)
        {
            W.violate("quit.work-after", "render is called after the quit request");
        }
        settle("a frame");
        auto* w = W.window_by_id(apps[id - 1].window);
        ++w->renders;
        check_state();
        for (auto f : W.unfinished_frames())
        {
            if (f + 1 < W.frame)
            {
                W.violate("ahead.frames", "frame %llu is recorded while frame %llu has not finished on the GPU",
                          (unsigned long long)W.frame, (unsigned long long)f);
            }
        }
        // The surface handed to the application has to be the image just acquired for its own window.
        auto vid   = W.to_id(static_cast<VkImageView>(surface.iv->handle()));
        auto* view = static_cast<o_image_view*>(W.find(vid, kind::image_view));
        if (!view || !view->alive)
        {
            W.violate("life.use-after-destroy", "the surface handed to render is a destroyed image view");
            return;
        }
        auto& img = W.get<o_image>(view->image);
        if (!img.swapchain || W.get<o_surface>(W.get<o_swapchain>(img.swapchain).surface).window != w->handle.id)
        {
            W.violate("route.wrong-surface", "application %d is handed a surface of another window", id);
        }
        else if (!img.acquired || w->acquired_now != 1)
        {
            W.violate("route.wrong-surface", "application %d is handed an image that is not the acquired one", id);
        }
        if (surface.iv->width() != int(img.w) || surface.iv->height() != int(img.h) || surface.format != int(img.format))
        {
            W.violate("route.surface-size", "the surface handed to render is described as %dx%d format %d, it is %ux%u format %d",
                      surface.iv->width(), surface.iv->height(), surface.format, img.w, img.h, int(img.format));
        }
        if (w->expect_token)
        {
            W.violate("route.render-twice", "application %d renders again before its frame was presented", id);
        }
        uint64_t token   = (uint64_t(id) << 32) | ++render_counter;
        W.current_token  = token;
        w->expect_token  = token;
        W.expected.clear();
        W.in_render = true;
        ensure_targets();
        mutate();
        uint32_t n = targets.empty() ? 1 : 1 + W.ch.choose("render.passes", 4);
        // Nothing is rendered to the window in this frame
        W.idle = W.cfg.idle_frames && W.ch.chance("render.idle", 250);
        if (W.idle)
        {
            W.count(n_idle_frame);
            W.idle_tokens.insert(token);
            n = targets.empty() ? 0 : n - 1;
        }
        std::vector<std::vector<pd::render_target const*>> passes(n);
        for (uint32_t i = 0; i != n; ++i)
        {
            auto& rts = passes[i];
            bool last = i + 1 == n;
            if (W.idle)
            {
            }
            else if (last || W.ch.chance("render.surface", 300))
            {
                rts.push_back(&surface);
            }
            if (!targets.empty())
            {
                bool ds = false;
                uint32_t extra = W.ch.choose("render.extra", 4);
                if (W.cfg.wide_passes && W.ch.choose("render.wide", 3) == 2)
                {
                    extra = 16;
                }
                uint32_t colors = uint32_t(rts.size());
                for (uint32_t j = 0; j != extra; ++j)
                {
                    auto& from = W.cfg.share_targets ? lender().targets : targets;
                    auto* t    = from[W.ch.choose("render.target", (uint32_t)from.size())]->rt.get();
                    if (std::find(rts.begin(), rts.end(), t) != rts.end() || ((t->depth || t->stencil) && ds)
                        || (!(t->depth || t->stencil) && colors == 8) || (!rts.empty() && t->sample_count_bits != rts[0]->sample_count_bits))
                    {
                        continue;
                    }
                    ds |= t->depth || t->stencil;
                    colors += !(t->depth || t->stencil);
                    rts.push_back(t);
                }
                if (rts.empty())
                {
                    rts.push_back(targets[0]->rt.get());
                }
            }
            // The first target decides on the area of a pass
            std::swap(rts[0], *std::min_element(rts.begin(), rts.end(), [](auto* a, auto* b) { return image_of(*a).w < image_of(*b).w; }));
        }
        size_t pushed = 0; // of the targets of the next pass, during the pass before it
        for (uint32_t i = 0; i != n; ++i)
        {
            auto& rts = passes[i];
            expected_pass ep;
            for (auto* rt : rts)
            {
                ep.targets.push_back(expect(*rt));
            }
            if (rts.size() > 1)
            {
                W.count(n_multi_target_pass);
            }
            if (rts.size() > 5)
            {
                W.count(n_wide_pass);
            }
            if (rts[0]->sample_count_bits != 1)
            {
                W.count(n_multisample_pass);
            }
            W.expected.push_back(ep);
            uint32_t calls = 0;
            {
                real_scope r;
                for (; pushed < rts.size(); ++pushed)
                {
                    cs.push_render_target(*rts[pushed]);
                }
                pushed = 0;
                cs.render_pass([&](auto&&) {
                    sim_scope q;
                    ++calls;
                    if (calls == 1 && i + 1 != n && W.ch.chance("render.early_push", 150))
                    {
                        W.count(n_early_push);
                        size_t k = 1 + W.ch.choose("render.early_count", uint32_t(passes[i + 1].size()));
                        real_scope r;
                        for (; pushed < k; ++pushed)
                        {
                            cs.push_render_target(*passes[i + 1][pushed]);
                        }
                    }
                    if (!W.recording_pass)
                    {
                        W.violate("pass.body", "the body of a render pass runs outside of the pass");
                    }
                });
            }
            if (calls != 1 || W.recording_pass)
            {
                W.violate("pass.body", "the body of a render pass ran %u times%s", calls, W.recording_pass ? ", the pass was not ended" : "");
            }
        }
        if (W.ch.chance("render.pending", W.idle ? 250 : 30))
        {
            // Targets that are pushed for a pass that never begins
            W.count(n_pending_targets);
            auto const& left = targets.empty() || W.ch.choose("render.pending_own", 2) ? surface : *targets[0]->rt;
            real_scope r;
            cs.push_render_target(left);
        }
        W.in_render = false;
        if (W.cfg.window_churn && !W.quiet && live_apps() < int(std::max(6u, W.cfg.windows + 8)) && W.ch.chance("render.create", 25))
        {
            W.count(n_window_created_in_render);
            create_app(64 + 16 * int(W.ch.choose("app.w", 20)), 64 + 16 * int(W.ch.choose("app.h", 20)));
        }
    }

    void check_state()
    {
        for (int k : key_pool)
        {
            bool down;
            {
                real_scope r;
                down = is_key_down(k);
            }
            if (down != (keys_down.count(k) != 0))
            {
                W.violate("key.state", "key 0x%x is reported %s but it is %s", k, down ? "down" : "up",
                          keys_down.count(k) ? "held" : "not held");
            }
        }
        bool l, m, r;
        int x, y;
        {
            real_scope rs;
            l = is_left_mouse_button_down();
            m = is_middle_mouse_button_down();
            r = is_right_mouse_button_down();
            auto p = mouse_xy();
            x = p.x;
            y = p.y;
        }
        if (l != !!(mouse_state & SDL_BUTTON_LMASK) || m != !!(mouse_state & SDL_BUTTON_MMASK)
            || r != !!(mouse_state & SDL_BUTTON_RMASK))
        {
            W.violate("key.mouse", "mouse buttons are reported as %d%d%d, the mouse state is %u", l, m, r, mouse_state);
        }
        if (x != mouse_x || y != mouse_y)
        {
            W.violate("key.mouse", "the mouse position is reported as %d,%d instead of %d,%d", x, y, mouse_x, mouse_y);
        }
    }
};

sim_app& sim_app::lender()
{
    if (W.ch.chance("render.lend", 300))
    {
        auto& s = apps[W.ch.choose("render.lender", (uint32_t)apps.size())];
        if (s.app && !s.app->targets.empty())
        {
            if (s.app != this)
            {
                W.count(n_target_shared);
            }
            return *s.app;
        }
    }
    return *this;
}

static pd::window_desc describe(int w, int h)
{
    pd::window_desc wd{};
    wd.width     = w;
    wd.height    = h;
    if (W.cfg.descriptors && W.ch.choose("app.small", 6) == 5)
    {
        static int const small[] = {1, 2, 31, 50, 63, 2000};
        wd.width  = small[W.ch.choose("app.small.w", 6)];
        wd.height = small[W.ch.choose("app.small.h", 6)];
    }
    wd.resizable = true;
    wd.high_dpi  = W.cfg.high_dpi;
    if (W.cfg.descriptors)
    {
        static char const* const titles[] = {"pudding!", "", "first", "second window", "\xE2\x9C\x93 utf-8", "%s {} %n"};
        uint32_t bits    = W.ch.choose("app.desc", 32);
        wd.title         = titles[W.ch.choose("app.title", 6)];
        wd.fullscreen    = bits & 1;
        wd.resizable     = bits & 2;
        wd.grab_input    = bits & 4;
        wd.high_dpi      = bits & 8;
        wd.always_on_top = bits & 16;
        W.count(n_descriptor);
    }
    return wd;
}

// Once a window is there, the window system has been told everything its descriptor asks for.
static void check_description(sim_window const& w, pd::window_desc const& wd)
{
    if (w.asked_w != wd.width || w.asked_h != wd.height)
    {
        W.violate("window.size", "a window of %dx%d is described, one of %dx%d is asked for", wd.width, wd.height, w.asked_w, w.asked_h);
    }
    if (w.title != wd.title)
    {
        W.violate("window.title", "a window titled '%s' is described, it is titled '%s'", wd.title, w.title.c_str());
    }
    struct
    {
        bool want;
        uint32_t flag;
        char const* name;
    } const options[] = {{wd.fullscreen, SDL_WINDOW_FULLSCREEN, "fullscreen"}, {wd.resizable, SDL_WINDOW_RESIZABLE, "resizable"},
                         {wd.grab_input, SDL_WINDOW_INPUT_GRABBED, "grab_input"}, {wd.high_dpi, SDL_WINDOW_ALLOW_HIGHDPI, "high_dpi"},
                         {wd.always_on_top, SDL_WINDOW_ALWAYS_ON_TOP, "always_on_top"}};
    for (auto& o : options)
    {
        if (o.want != ((w.flags & o.flag) != 0))
        {
            W.violate("window.option", "a window is described with %s=%d, the window system is asked for %d", o.name, o.want, !o.want);
        }
    }
    // Nothing else, except what every window is
    uint32_t const known = SDL_WINDOW_FULLSCREEN | SDL_WINDOW_RESIZABLE | SDL_WINDOW_INPUT_GRABBED | SDL_WINDOW_ALLOW_HIGHDPI
                           | SDL_WINDOW_ALWAYS_ON_TOP | SDL_WINDOW_VULKAN | SDL_WINDOW_SHOWN;
    if (w.flags & ~known)
    {
        W.violate("window.option", "the window system is asked for options 0x%x that no description asks for", w.flags & ~known);
    }
}

// Windows that no application runs in: opened, moved from object to object and closed again by the user.
struct spare
{
    std::unique_ptr<pd::window> object;
    uint32_t window = 0; // 0: moved from
    std::string title;
};
static std::vector<spare> spares;

static void check_spare(spare const& s)
{
    uint32_t id;
    std::string title;
    {
        real_scope r;
        id    = s.object->id();
        char const* t = s.object->title();
        sim_scope q;
        title = t ? t : "";
    }
    if (id != s.window)
    {
        W.violate("window.identity", "the object of window %u says that it is window %u", s.window, id);
    }
    if (title != s.title)
    {
        W.violate("window.title-kept", "the object of window %u, titled '%s', says that the title is '%s'", s.window, s.title.c_str(),
                  title.c_str());
    }
}

static void spare_windows()
{
    uint32_t what = W.ch.choose("spare.what", 5);
    auto any      = [](char const* site) { return W.ch.choose(site, (uint32_t)spares.size()); };
    if (spares.empty() || (what == 0 && spares.size() < 4))
    {
        auto wd        = describe(64 + 16 * int(W.ch.choose("app.w", 20)), 64 + 16 * int(W.ch.choose("app.h", 20)));
        int saved      = W.constructing;
        W.constructing = 0;
        spare s;
        {
            real_scope r;
            s.object = std::make_unique<pd::window>(wd);
        }
        W.constructing = saved;
        check_description(W.windows.back(), wd);
        s.window = W.windows.back().handle.id;
        s.title  = wd.title;
        check_spare(s);
        spares.push_back(std::move(s));
        W.count(n_spare_window);
        if (!W.fatal.empty())
        {
            W.violate("fault.swallowed", "a window is constructed in spite of %s", W.fatal.c_str());
            W.finish();
        }
    }
    else if (what == 1)
    {
        auto i = any("spare.from");
        if (!spares[i].window)
        {
            return;
        }
        spare s;
        {
            real_scope r;
            s.object = std::make_unique<pd::window>(std::move(*spares[i].object));
        }
        s.window         = spares[i].window;
        s.title          = spares[i].title;
        spares[i].window = 0;
        check_spare(s);
        spares.push_back(std::move(s));
        W.count(n_spare_moved);
    }
    else if (what == 2 && spares.size() > 1)
    {
        auto i = any("spare.from");
        auto j = any("spare.to");
        if (i == j || !spares[i].window)
        {
            return;
        }
        {
            real_scope r;
            *spares[j].object = std::move(*spares[i].object);
        }
        // The window that was there before may go at once or live on in the other object
        spares[j].window = spares[i].window;
        spares[j].title  = spares[i].title;
        spares[i].window = 0;
        check_spare(spares[j]);
        W.count(n_spare_moved);
    }
    else if (what == 3)
    {
        auto i       = any("spare.gone");
        uint32_t was = spares[i].window;
        {
            real_scope r;
            spares[i].object.reset();
        }
        if (was && W.window_by_id(was)->alive)
        {
            W.violate("leak.window", "the window of a destroyed object still exists");
        }
        spares.erase(spares.begin() + i);
        for (auto& s : spares)
        {
            if (s.window && !W.window_by_id(s.window)->alive)
            {
                W.violate("window.closed", "window %u is closed although its object lives", s.window);
            }
        }
        if (!W.fatal.empty())
        {
            W.violate("fault.swallowed", "a window is destroyed as if nothing had happened in spite of %s", W.fatal.c_str());
        }
    }
    else
    {
        for (auto& s : spares)
        {
            if (s.window)
            {
                check_spare(s);
            }
        }
    }
}

static int create_app(int w, int h)
{
    int id = int(apps.size()) + 1;
    apps.emplace_back();
    int saved      = W.constructing;
    W.constructing = id;
    pd::window_desc wd = describe(w, h);
    size_t before      = W.windows.size();
    sim_app* a;
    {
        real_scope r;
        a = new sim_app(wd, id);
    }
    W.constructing    = saved;
    apps[id - 1].app  = a;
    if (W.windows.size() != before + 1)
    {
        W.violate("route.window-count", "constructing a pudding created %zu windows", W.windows.size() - before);
        W.finish();
    }
    apps[id - 1].window = W.windows.back().handle.id;
    check_description(W.windows.back(), wd);
    if (!W.fatal.empty())
    {
        W.violate("fault.swallowed", "a window is constructed in spite of %s", W.fatal.c_str());
        W.finish();
    }
    W.count(n_window_created);
    W.log("application %d constructed", id);
    return id;
}

static void destroy_app(int id, char const* why)
{
    auto& s = apps[id - 1];
    auto* a = s.app;
    s.app   = nullptr;
    s.died  = W.frame;
    W.log("application %d destroyed (%s)", id, why);
    if (W.in_loop)
    {
        W.count(n_window_destroyed_in_loop);
        if (!W.unfinished_frames().empty())
        {
            W.count(n_window_destroyed_in_flight);
        }
    }
    {
        real_scope r;
        delete a;
    }
    if (!W.fatal.empty())
    {
        W.violate("fault.swallowed", "a window is destroyed as if nothing had happened in spite of %s", W.fatal.c_str());
    }
    auto* w = W.window_by_id(s.window);
    if (w->alive)
    {
        W.violate("leak.window", "the window of a destroyed application still exists");
    }
    W.log("application %d gone", id);
}

// ------------------------------------------------------------------------------------------------ event script
static sim_window* pick_window(bool only_live)
{
    std::vector<sim_window*> c;
    for (auto& w : W.windows)
    {
        if (w.alive && w.app)
        {
            c.push_back(&w);
        }
    }
    if (c.empty())
    {
        return nullptr;
    }
    (void)only_live;
    return c[W.ch.choose("user.window", (uint32_t)c.size())];
}

// Where the pointer is: mostly inside the window, at times where it already was, and (while a button is held) outside it
static void move_mouse()
{
    uint32_t how = W.ch.choose("user.where", 8);
    if (how == 6)
    {
        W.count(n_pointer_still);
        return;
    }
    int off = 0;
    if (how == 7)
    {
        W.count(n_pointer_outside);
        off = W.ch.choose("user.outside", 2) ? -900 : 5000;
    }
    mouse_x = int(W.ch.choose("user.x", 800)) + off;
    mouse_y = int(W.ch.choose("user.y", 600)) + off;
}

static bool generate_event()
{
    SDL_Event e;
    memset(&e, 0, sizeof e);
    auto* w     = pick_window(true);
    uint32_t id = w ? w->handle.id : 0;
    if (W.cfg.wild_events && W.ch.chance("user.dead_window", 80))
    {
        // A window that does not exist (any more)
        id = 0;
        for (auto& x : W.windows)
        {
            if (!x.alive)
            {
                id = x.handle.id;
            }
        }
        W.count(f_event_dead_window);
        w = nullptr;
    }
    // Events may have waited in the queue for a while, but they are never older than their predecessors
    auto stamp = [&](SDL_Event& x) {
        static uint32_t const ages[] = {0, 0, 0, 0, 0, 3, 900, 40000};
        uint32_t age                 = ages[W.ch.choose("user.age", 8)];
        x.common.timestamp           = ticks() - std::min(age, uint32_t(ticks() - last_stamp));
        last_stamp                   = x.common.timestamp;
    };
    // None, shift, control, both, alt, windows key, num lock, caps lock
    auto modifiers = [] {
        static Uint16 const mods[] = {0, 0x1, 0x40, 0x41, 0x100, 0x400, 0x1000, 0x2000};
        return mods[W.ch.choose("user.mod", 8)];
    };
    uint32_t what = W.ch.choose("user.kind", 10);
    if (!W.cfg.input && what < 7)
    {
        what = 8;
    }
    switch (what)
    {
    case 0:
    case 1: { // key press or repeat
        int k        = key_pool[W.ch.choose("user.key", key_count)];
        e.type       = SDL_KEYDOWN;
        e.key.state  = SDL_PRESSED;
        e.key.repeat = 0;
        e.key.keysym.sym = k;
        e.key.keysym.mod = modifiers();
        e.key.windowID   = id;
        stamp(e);
        pending_events.push_back(e);
        return true;
    }
    case 2: { // release of a held key
        if (W.ch.chance("user.release_unknown", 60))
        {
            // of any key: one that was pressed before the program had the focus
            int k = key_pool[W.ch.choose("user.key", key_count)];
            if (!keys_user.count(k))
            {
                W.count(n_release_without_press);
            }
            e.type           = SDL_KEYUP;
            e.key.keysym.sym = k;
            e.key.keysym.mod = modifiers();
            e.key.windowID   = id;
            stamp(e);
            pending_events.push_back(e);
            return true;
        }
        if (keys_user.empty())
        {
            return false;
        }
        auto it = keys_user.begin();
        std::advance(it, W.ch.choose("user.release", (uint32_t)keys_user.size()));
        if (it->second != id)
        {
            W.count(f_key_up_other_window);
        }
        e.type           = SDL_KEYUP;
        e.key.keysym.sym = it->first;
        e.key.keysym.mod = modifiers();
        e.key.windowID   = id;
        stamp(e);
        pending_events.push_back(e);
        return true;
    }
    case 3: {
        int x0 = mouse_x, y0 = mouse_y;
        move_mouse();
        e.type          = SDL_MOUSEMOTION;
        e.motion.windowID = id;
        e.motion.which  = W.ch.choose("user.which", 4) == 3 ? SDL_TOUCH_MOUSEID : 0;
        e.motion.xrel   = mouse_x - x0;
        e.motion.yrel   = mouse_y - y0;
        e.motion.state  = mouse_state;
        e.motion.x      = mouse_x;
        e.motion.y      = mouse_y;
        stamp(e);
        pending_events.push_back(e);
        return true;
    }
    case 4:
    case 5: {
        uint32_t b        = 1 + W.ch.choose("user.button", 5);
        bool up           = mouse_state & SDL_BUTTON(b);
        mouse_state      ^= SDL_BUTTON(b);
        e.type            = up ? SDL_MOUSEBUTTONUP : SDL_MOUSEBUTTONDOWN;
        e.button.windowID = id;
        e.button.button   = (Uint8)b;
        e.button.state    = up ? SDL_RELEASED : SDL_PRESSED;
        e.button.clicks   = (Uint8)((1 + W.ch.choose("user.clicks", 4)) % 4);
        e.button.which    = W.ch.choose("user.which", 4) == 3 ? SDL_TOUCH_MOUSEID : 0;
        move_mouse();
        e.button.x        = mouse_x;
        e.button.y        = mouse_y;
        stamp(e);
        pending_events.push_back(e);
        return true;
    }
    case 6: {
        e.type           = SDL_MOUSEWHEEL;
        e.wheel.windowID = id;
        e.wheel.x        = int(W.ch.choose("user.dx", 7)) - 3;
        e.wheel.y        = int(W.ch.choose("user.dy", 7)) - 3;
        if (W.ch.choose("user.fling", 8) == 7)
        {
            e.wheel.y *= 400; // a free-spinning wheel
        }
        e.wheel.which     = W.ch.choose("user.which", 4) == 3 ? SDL_TOUCH_MOUSEID : 0;
        e.wheel.direction = W.ch.choose("user.flip", 2) ? SDL_MOUSEWHEEL_FLIPPED : SDL_MOUSEWHEEL_NORMAL;
        stamp(e);
        pending_events.push_back(e);
        return true;
    }
    case 7: { // something pudding has no handler for
        if (!W.cfg.wild_events)
        {
            return false;
        }
        static Uint32 const types[] = {SDL_FINGERDOWN, SDL_FINGERUP, SDL_CLIPBOARDUPDATE, SDL_TEXTINPUT, SDL_TEXTEDITING,
                                       SDL_USEREVENT, SDL_DROPFILE, SDL_KEYMAPCHANGED, SDL_RENDER_TARGETS_RESET, SDL_APP_LOWMEMORY,
                                       SDL_JOYAXISMOTION, 0x7777, SDL_APP_TERMINATING, SDL_APP_WILLENTERBACKGROUND,
                                       SDL_APP_DIDENTERFOREGROUND, SDL_DISPLAYEVENT, SDL_SYSWMEVENT, SDL_FINGERMOTION};
        e.type          = types[W.ch.choose("user.unknown", 18)];
        e.user.windowID = id;
        // Bytes that look like a mouse button or window event if misinterpreted
        e.button.button = (Uint8)(1 + W.ch.choose("user.unknown.b", 15));
        W.count(f_event_unknown_type);
        stamp(e);
        pending_events.push_back(e);
        return true;
    }
    default:
        break;
    }
    // Window events
    e.type            = SDL_WINDOWEVENT;
    e.window.windowID = id;
    stamp(e);
    static Uint8 const kinds[]
        = {SDL_WINDOWEVENT_SHOWN, SDL_WINDOWEVENT_HIDDEN, SDL_WINDOWEVENT_EXPOSED, SDL_WINDOWEVENT_MOVED,
           SDL_WINDOWEVENT_MAXIMIZED, SDL_WINDOWEVENT_ENTER, SDL_WINDOWEVENT_LEAVE, SDL_WINDOWEVENT_FOCUS_GAINED,
           SDL_WINDOWEVENT_FOCUS_LOST, SDL_WINDOWEVENT_CLOSE, SDL_WINDOWEVENT_TAKE_FOCUS, SDL_WINDOWEVENT_HIT_TEST,
           SDL_WINDOWEVENT_NONE, 99, SDL_WINDOWEVENT_RESIZED, SDL_WINDOWEVENT_MINIMIZED, SDL_WINDOWEVENT_RESTORED};
    uint32_t wk = W.ch.choose("user.winkind", 23);
    if (wk >= 17 && wk <= 19 && w && W.cfg.resizes)
    {
        W.resize_window(*w, 16 + 16 * int(W.ch.choose("user.rw", 80)), 16 + 16 * int(W.ch.choose("user.rh", 80)));
        e.window.event = SDL_WINDOWEVENT_SIZE_CHANGED;
        e.window.data1 = w->w;
        e.window.data2 = w->h;
        pending_events.push_back(e);
        e.window.event = SDL_WINDOWEVENT_RESIZED;
        pending_events.push_back(e);
        return true;
    }
    if (wk >= 20 && w && W.cfg.minimise)
    {
        if (w->minimised)
        {
            w->minimised   = false;
            e.window.event = SDL_WINDOWEVENT_RESTORED;
            W.count(f_restore);
        }
        else
        {
            w->minimised   = true;
            w->collapse    = W.ch.choose("wm.collapse", 3);
            e.window.event = SDL_WINDOWEVENT_MINIMIZED;
            W.count(f_minimise);
        }
        W.resize_window(*w, w->w, w->h);
        pending_events.push_back(e);
        return true;
    }
    e.window.event = kinds[wk % 17];
    if (e.window.event == SDL_WINDOWEVENT_CLOSE && !W.cfg.window_churn && !W.cfg.input)
    {
        return false;
    }
    e.window.data1 = int(W.ch.choose("user.d1", 500)) - 100;
    e.window.data2 = int(W.ch.choose("user.d2", 500)) - 100;
    uint32_t zero  = W.ch.choose("user.d0", 16); // one of the values, or both, are zero
    e.window.data1 = zero & 1 && zero < 4 ? 0 : e.window.data1;
    e.window.data2 = zero & 2 && zero < 4 ? 0 : e.window.data2;
    pending_events.push_back(e);
    return true;
}

// Reference mapping: which callback an event has to cause, given the windows that are alive.
constexpr int64_t any_duration = -1;
static bool expect_for(SDL_Event const& e, callback& want)
{
    auto app_of = [](uint32_t window) -> int {
        for (size_t i = 0; i != apps.size(); ++i)
        {
            if (apps[i].app && apps[i].window == window)
            {
                return int(i) + 1;
            }
        }
        return 0;
    };
    bool expected = false;
    auto add      = [&](int app, int cb, int64_t a = 0, int64_t b = 0) {
        if (app)
        {
            want     = {app, cb, a, b};
            expected = true;
        }
    };
    switch (e.type)
    {
    case SDL_KEYDOWN:
        add(app_of(e.key.windowID), cb_key_down, e.key.keysym.sym);
        break;
    case SDL_KEYUP:
        add(app_of(e.key.windowID), cb_key_up, e.key.keysym.sym,
            keys_down.count(e.key.keysym.sym) ? int64_t(uint32_t(e.key.timestamp - keys_down[e.key.keysym.sym])) : any_duration);
        break;
    case SDL_MOUSEMOTION:
        add(app_of(e.motion.windowID), cb_motion, e.motion.x, e.motion.y);
        break;
    case SDL_MOUSEBUTTONDOWN:
    case SDL_MOUSEBUTTONUP: {
        static int const down[] = {cb_down_l, cb_down_m, cb_down_r};
        static int const up[]   = {cb_up_l, cb_up_m, cb_up_r};
        if (e.button.button >= 1 && e.button.button <= 3)
        {
            add(app_of(e.button.windowID), (e.type == SDL_MOUSEBUTTONDOWN ? down : up)[e.button.button - 1], e.button.x,
                e.button.y);
        }
        break;
    }
    case SDL_MOUSEWHEEL:
        add(app_of(e.wheel.windowID), cb_wheel, e.wheel.x, e.wheel.y);
        break;
    case SDL_WINDOWEVENT: {
        int a = app_of(e.window.windowID);
        switch (e.window.event)
        {
        case SDL_WINDOWEVENT_SHOWN: add(a, cb_shown); break;
        case SDL_WINDOWEVENT_HIDDEN: add(a, cb_hidden); break;
        case SDL_WINDOWEVENT_EXPOSED: add(a, cb_exposed); break;
        case SDL_WINDOWEVENT_MOVED: add(a, cb_moved, e.window.data1, e.window.data2); break;
        case SDL_WINDOWEVENT_RESIZED: add(a, cb_resize, e.window.data1, e.window.data2); break;
        case SDL_WINDOWEVENT_MINIMIZED: add(a, cb_min); break;
        case SDL_WINDOWEVENT_MAXIMIZED: add(a, cb_max); break;
        case SDL_WINDOWEVENT_RESTORED: add(a, cb_restored); break;
        case SDL_WINDOWEVENT_ENTER: add(a, cb_enter); break;
        case SDL_WINDOWEVENT_LEAVE: add(a, cb_leave); break;
        case SDL_WINDOWEVENT_FOCUS_GAINED: add(a, cb_focus_g); break;
        case SDL_WINDOWEVENT_FOCUS_LOST: add(a, cb_focus_l); break;
        case SDL_WINDOWEVENT_CLOSE: add(a, cb_close); break;
        default: break;
        }
        break;
    }
    default:
        break;
    }
    return expected;
}

static std::string show(callback const& c)
{
    char b[128];
    snprintf(b, sizeof b, "%s(%lld,%lld) of application %d", cb_names[c.cb], (long long)c.a, (long long)c.b, c.app);
    return b;
}

// Takes events off the list, in the order they were handed out, up to the first that has to cause a callback.
static bool next_expected(callback& want)
{
    while (!polled.empty())
    {
        SDL_Event e = polled.front();
        polled.pop_front();
        if (e.type == SDL_QUIT)
        {
            quit_reached = true;
            for (auto& s : apps)
            {
                s.alive_at_quit = s.app != nullptr;
            }
            continue;
        }
        if (e.type == SDL_KEYDOWN)
        {
            keys_down.emplace(e.key.keysym.sym, e.key.timestamp);
        }
        bool expected = expect_for(e, want);
        if (e.type == SDL_KEYUP)
        {
            keys_down.erase(e.key.keysym.sym);
        }
        if (expected)
        {
            return true;
        }
    }
    return false;
}

static void match(callback const& got)
{
    callback want;
    if (!next_expected(want))
    {
        if (quit_reached)
        {
            W.violate("quit.other", "%s runs because of the quit request", show(got).c_str());
        }
        else
        {
            W.violate("input.dispatch", "%s runs without an event for it", show(got).c_str());
        }
        return;
    }
    if (want.cb == cb_key_up && want.b == any_duration)
    {
        want.b = got.b; // nothing is promised for a key that was not seen pressed
    }
    if (!(got == want))
    {
        bool key = want.cb == cb_key_up && got.cb == cb_key_up && got.app == want.app && got.a == want.a;
        W.violate(key ? "key.duration" : "input.dispatch", "an event caused %s instead of %s", show(got).c_str(),
                  show(want).c_str());
    }
}

// Every event handed out so far has to have been delivered.
static void settle(char const* when)
{
    callback want;
    while (next_expected(want))
    {
        W.violate("input.dispatch", "an event did not cause %s before %s", show(want).c_str(), when);
    }
}

void world::before_poll()
{
    if (quit_event && ++polls_after_quit > 64)
    {
        violate("quit.continued", "the event loop goes on polling after the quit request");
        finish();
    }
    if (drained)
    {
        settle("the next poll");
    }
    if (drained)
    {
        // A frame has been rendered since the queue was drained.
        frame_checks();
        if (cfg.display_changes && !quiet && ch.chance("wm.display_change", 60))
        {
            // Every window at once has to recreate its swapchain
            count(f_display_change);
            log("wm: display change");
            for (auto& w : windows)
            {
                if (w.alive && w.surface)
                {
                    auto& s = get<o_surface>(w.surface);
                    ++s.generation;
                    s.ood           = true;
                    s.changed_frame = frame;
                    s.fresh         = false;
                }
            }
        }
    }
    drained = false;
}

bool world::next_event(SDL_Event* e)
{
    if (quit_event)
    {
        return false; // the user is gone
    }
    if (!quiet && frame >= cfg.frames && !early_quit)
    {
        quiet      = true;
        quiet_from = frame;
        log("quiet phase: no more faults, no more input");
        for (auto& w : windows)
        {
            if (w.alive && w.minimised)
            {
                w.minimised = false;
                resize_window(w, w.w, w.h);
            }
            w.quiet_present_at = w.presents;
        }
    }
    quit_now = early_quit ? frame >= cfg.frames : frame >= cfg.frames + quiet_frames;
    if (quit_now)
    {
        if (early_quit && events_in_drain == 0 && generate_event() && ch.choose("quit.behind", 2))
        {
            // The quit request arrives behind another event.
        }
        else
        {
            pending_events.clear();
        }
    }
    else if (!quiet && burst && pending_events.empty())
    {
        --burst;
        for (int i = 0; i != 20 && !generate_event(); ++i)
        {
        }
    }
    else if (!quiet && events_in_drain < 6 && pending_events.empty() && ch.chance("user.event", 420))
    {
        generate_event();
    }
    if (!pending_events.empty() && (burst || events_in_drain < 12 || burst_drain))
    {
        *e = pending_events.front();
        pending_events.pop_front();
        ++events_in_drain;
        count(n_events_delivered);
        if (e->type == SDL_KEYDOWN)
        {
            int k = e->key.keysym.sym;
            if (keys_user.count(k))
            {
                e->key.repeat = 1;
                count(f_key_repeat);
            }
            else
            {
                keys_user[k] = e->key.windowID;
                count(n_key_press);
            }
        }
        else if (e->type == SDL_KEYUP)
        {
            keys_user.erase(e->key.keysym.sym);
        }
        polled.push_back(*e);
        log("event type 0x%x window %u sub %u", e->type, e->window.windowID, e->type == SDL_WINDOWEVENT ? e->window.event : 0);
        return true;
    }
    if (quit_now)
    {
        e->type = SDL_QUIT;
        e->quit.timestamp = ticks();
        polled.push_back(*e);
        quit_event = true;
        quit_sent  = true;
        count(n_quit);
        log("event QUIT");
        return true;
    }
    return false;
}

void world::frame_boundary()
{
    ++frame;
    if (frame == 257)
    {
        count(n_frames_beyond_256);
    }
    drained         = true;
    events_in_drain = 0;
    burst           = 0;
    burst_drain     = false;
    if (cfg.bursts && !quiet && ch.chance("user.burst", 60))
    {
        static uint32_t const sizes[] = {20, 70, 140, 300, 1100};
        burst       = sizes[ch.choose("user.burst.size", 5)];
        burst_drain = true;
        count(f_event_burst);
    }
    if (cfg.long_stalls && !quiet && ch.chance("user.pause", 60))
    {
        static uint64_t const pauses[] = {5, 70, 1000, 4 * 3600, 30 * 86400};
        advance(1'000'000'000ull * pauses[ch.choose("user.pause.len", 5)]);
        count(f_long_stall);
    }
    for (auto& w : windows)
    {
        w.renders = 0;
    }
    snapshot_generations();
}

static std::map<uint32_t, std::pair<uint32_t, bool>> gens; // window -> surface generation, swapchain current

void world::snapshot_generations()
{
    gens.clear();
    for (auto& w : windows)
    {
        if (w.alive && w.surface)
        {
            auto& s      = get<o_surface>(w.surface);
            bool current = s.active && get<o_swapchain>(s.active).generation == s.generation;
            gens[w.handle.id] = {s.generation, current};
        }
    }
}

// Runs when the loop comes back to polling after a frame.
void world::frame_checks()
{
    for (size_t i = 0; i != apps.size(); ++i)
    {
        auto& a = apps[i];
        if (!a.app)
        {
            continue;
        }
        auto* w = window_by_id(a.window);
        if (w->acquired_now != 0)
        {
            violate("route.not-presented", "window %u acquired an image this frame and did not present it", a.window);
        }
        if (w->renders > 1)
        {
            violate("route.render-count", "application %zu was rendered %llu times in one frame", i + 1,
                    (unsigned long long)w->renders);
        }
        auto it = gens.find(a.window);
        if (it != gens.end() && it->second.second && get<o_surface>(w->surface).generation == it->second.first
            && w->renders != 1)
        {
            violate("swap.not-rendered", "window %u has an up to date swapchain but was not rendered this frame", a.window);
        }
        if (w->renders == 0)
        {
            count(n_frame_skipped);
        }
    }
    // Resources of things that are gone must be released within a bounded number of frames.
    uint64_t const slack = 4;
    size_t passes = 0;
    for (auto& o : objs)
    {
        if (!o->alive)
        {
            continue;
        }
        if (o->owner > 0 && apps[o->owner - 1].app == nullptr && apps[o->owner - 1].died + slack <= frame
            && o->k != kind::render_pass)
        {
            violate(o->k == kind::framebuffer ? "leak.framebuffer" : "leak.window-objects",
                    "%llu frames after its window was destroyed, object kind %d created for it is still alive",
                    (unsigned long long)(frame - apps[o->owner - 1].died), int(o->k));
        }
        switch (o->k)
        {
        case kind::swapchain: {
            auto& sc = static_cast<o_swapchain&>(*o);
            if (sc.retired && sc.retired_frame + slack <= frame)
            {
                violate("leak.swapchain", "a retired swapchain is still alive %llu frames later",
                        (unsigned long long)(frame - sc.retired_frame));
            }
            break;
        }
        case kind::image_view: {
            auto& v   = static_cast<o_image_view&>(*o);
            auto& img = get<o_image>(v.image);
            if (img.swapchain)
            {
                auto& sc = get<o_swapchain>(img.swapchain);
                if ((sc.retired && sc.retired_frame + slack <= frame))
                {
                    violate("leak.view", "a view of a retired swapchain's image is still alive %llu frames later",
                            (unsigned long long)(frame - sc.retired_frame));
                }
            }
            break;
        }
        case kind::framebuffer: {
            for (auto v : static_cast<o_framebuffer&>(*o).views)
            {
                auto& view = get<o_image_view>(v);
                if (!view.alive && view.died + slack <= frame)
                {
                    violate("leak.framebuffer", "a framebuffer is still alive %llu frames after one of its views was destroyed",
                            (unsigned long long)(frame - view.died));
                }
            }
            break;
        }
        case kind::render_pass:
            ++passes;
            break;
        default:
            break;
        }
    }
    if (!cfg.custom_targets && passes > 8 * windows.size())
    {
        violate("leak.render-pass", "%zu render passes are alive for %zu windows ever created: swapchain recreation leaks them",
                passes, windows.size());
    }
    if (quiet && frame >= quiet_from + quiet_frames)
    {
        for (auto& a : apps)
        {
            if (!a.app)
            {
                continue;
            }
            auto* w = window_by_id(a.window);
            if (w->presents < w->quiet_present_at + quiet_frames - 4)
            {
                violate("swap.no-progress", "window %u got only %llu frames on screen in %u quiet frames", a.window,
                        (unsigned long long)(w->presents - w->quiet_present_at), quiet_frames);
            }
            else
            {
                auto& s = get<o_surface>(w->surface);
                auto& c = s.last_caps;
                uint32_t ew = w->px_w(), eh = w->px_h();
                if (cfg.wayland)
                {
                    ew = std::min(std::max(ew, c.minImageExtent.width), c.maxImageExtent.width);
                    eh = std::min(std::max(eh, c.minImageExtent.height), c.maxImageExtent.height);
                }
                if (w->last_present_w != ew || w->last_present_h != eh)
                {
                    violate("swap.stale-size", "window %u is %ux%u but shows %ux%u frames long after the resize", a.window, ew,
                            eh, w->last_present_w, w->last_present_h);
                }
            }
        }
    }
}

// What the render callback asked for against what the command buffer contains.
void world::check_passes(o_command_buffer& cb)
{
    // A frame in which the application renders nothing to its window may be completed by passes on nothing else
    size_t made = cb.passes.size();
    while (idle && made > expected.size())
    {
        auto& views = get<o_framebuffer>(cb.passes[made - 1].framebuffer).views;
        if (std::any_of(views.begin(), views.end(), [&](uint32_t v) { return !get<o_image>(get<o_image_view>(v).image).swapchain; }))
        {
            break;
        }
        for (size_t i = 1; i < views.size(); ++i)
        {
            if (std::find(views.begin(), views.begin() + i, views[i]) != views.begin() + i)
            {
                violate("pass.aliased", "a render pass the application did not ask for uses one target twice");
            }
        }
        --made;
    }
    if (made != expected.size())
    {
        violate("pass.count", "%zu render passes were recorded, the application made %zu", cb.passes.size(), expected.size());
        expected.clear();
        return;
    }
    for (size_t i = 0; i != expected.size(); ++i)
    {
        auto& p  = cb.passes[i];
        auto& e  = expected[i].targets;
        auto& rp = get<o_render_pass>(p.render_pass);
        auto& fb = get<o_framebuffer>(p.framebuffer);
        if (fb.views.size() != e.size() || rp.att.size() != e.size())
        {
            violate("pass.targets", "a render pass has %zu attachments (framebuffer %zu), %zu targets were pushed",
                    rp.att.size(), fb.views.size(), e.size());
            continue;
        }
        std::vector<uint32_t> colors, depths;
        for (size_t j = 0; j != e.size(); ++j)
        {
            auto& t = e[j];
            auto& a = rp.att[j];
            if (fb.views[j] != t.view)
            {
                violate("pass.wrong-view", "attachment %zu of a render pass is not the target that was pushed", j);
            }
            VkAttachmentLoadOp load = t.load    ? VK_ATTACHMENT_LOAD_OP_LOAD
                                      : t.clear ? VK_ATTACHMENT_LOAD_OP_CLEAR
                                                : VK_ATTACHMENT_LOAD_OP_DONT_CARE;
            VkAttachmentStoreOp store = t.store ? VK_ATTACHMENT_STORE_OP_STORE : VK_ATTACHMENT_STORE_OP_DONT_CARE;
            bool const stencil_only = t.stencil && !t.depth; // load and store operations of the other aspects mean nothing
            if (a.format != t.format || uint32_t(a.samples) != t.samples
                || (!stencil_only && (a.loadOp != load || a.storeOp != store))
                || int(a.initialLayout) != t.initial_layout || int(a.finalLayout) != t.final_layout
                || (t.stencil && (a.stencilLoadOp != load || a.stencilStoreOp != store)))
            {
                violate("pass.attributes",
                        "attachment %zu: format %d/%d load %d/%d store %d/%d layouts %d->%d / %d->%d (used / asked for)", j,
                        int(a.format), int(t.format), int(a.loadOp), int(load), int(a.storeOp), int(store),
                        int(a.initialLayout), int(a.finalLayout), t.initial_layout, t.final_layout);
            }
            if (load == VK_ATTACHMENT_LOAD_OP_CLEAR && (stencil_only || a.loadOp == load) && j < p.clears.size())
            {
                auto& c = p.clears[j];
                bool ok = (t.depth || t.stencil) ? (stencil_only || c.depthStencil.depth == t.clear_depth)
                                                       && (!t.stencil || c.depthStencil.stencil == t.clear_stencil)
                                                 : memcmp(c.color.float32, t.clear_value, sizeof t.clear_value) == 0;
                if (!ok)
                {
                    violate("pass.clear-value", "attachment %zu is cleared to a value of another target", j);
                }
            }
            (t.depth || t.stencil ? depths : colors).push_back(uint32_t(j));
        }
        std::vector<uint32_t> rc;
        for (auto& r : rp.color)
        {
            rc.push_back(r.attachment);
        }
        if (rc != colors || rp.has_ds != !depths.empty() || (rp.has_ds && rp.ds.attachment != depths[0]))
        {
            violate("pass.references", "the subpass does not reference the color and depth targets that were pushed");
        }
        if (!e.empty())
        {
            if (int(fb.w) != e[0].w || int(fb.h) != e[0].h || int(p.area.extent.width) != e[0].w
                || int(p.area.extent.height) != e[0].h || p.area.offset.x != 0 || p.area.offset.y != 0)
            {
                violate("pass.size", "a pass covers %ux%u of a %ux%u framebuffer, its first target is %dx%d",
                        p.area.extent.width, p.area.extent.height, fb.w, fb.h, e[0].w, e[0].h);
            }
        }
    }
    expected.clear();
}

// ------------------------------------------------------------------------------------------------ configuration
void vary_limits(surface_offer& o)
{
    static uint32_t const mins[] = {2, 1, 3, 4};
    static uint32_t const maxs[] = {0, 8, 3, 2, 4};
    o.caps_min                   = mins[W.ch.choose("topo.min_images", 4)];
    o.caps_max                   = maxs[W.ch.choose("topo.max_images", 5)];
    if (o.caps_max && o.caps_max < o.caps_min)
    {
        o.caps_max = o.caps_min;
    }
    static VkCompositeAlphaFlagsKHR const alphas[]
        = {VK_COMPOSITE_ALPHA_OPAQUE_BIT_KHR, VK_COMPOSITE_ALPHA_OPAQUE_BIT_KHR | VK_COMPOSITE_ALPHA_INHERIT_BIT_KHR,
           VK_COMPOSITE_ALPHA_INHERIT_BIT_KHR, VK_COMPOSITE_ALPHA_PRE_MULTIPLIED_BIT_KHR | VK_COMPOSITE_ALPHA_POST_MULTIPLIED_BIT_KHR};
    o.alpha     = alphas[W.ch.choose("topo.alpha", 4)];
    static VkSurfaceTransformFlagBitsKHR const tr[]
        = {VK_SURFACE_TRANSFORM_IDENTITY_BIT_KHR, VK_SURFACE_TRANSFORM_ROTATE_90_BIT_KHR, VK_SURFACE_TRANSFORM_ROTATE_180_BIT_KHR};
    o.transform = tr[W.ch.choose("topo.transform", 3)];
    o.identity  = W.ch.choose("topo.identity", 2) == 0; // transforms other than the current one
}
static bool is(char const* list);
surface_offer make_offer()
{
    surface_offer o;
    static VkSurfaceFormatKHR const all[]
        = {{VK_FORMAT_B8G8R8A8_UNORM, VK_COLOR_SPACE_SRGB_NONLINEAR_KHR}, {VK_FORMAT_B8G8R8A8_SRGB, VK_COLOR_SPACE_SRGB_NONLINEAR_KHR},
           {VK_FORMAT_R8G8B8A8_UNORM, VK_COLOR_SPACE_SRGB_NONLINEAR_KHR}, {VK_FORMAT_A2B10G10R10_UNORM_PACK32, VK_COLOR_SPACE_SRGB_NONLINEAR_KHR},
           {VK_FORMAT_R16G16B16A16_SFLOAT, VK_COLOR_SPACE_DISPLAY_P3_NONLINEAR_EXT}, {VK_FORMAT_B8G8R8A8_UNORM, VK_COLOR_SPACE_DISPLAY_P3_NONLINEAR_EXT}};
    if (W.ch.chance("topo.any_format", 150))
    {
        o.formats.push_back({VK_FORMAT_UNDEFINED, VK_COLOR_SPACE_SRGB_NONLINEAR_KHR});
    }
    else
    {
        uint32_t k = W.ch.choose("topo.formats", 64); // bit set = left out
        for (uint32_t i = 0; i != 6; ++i)
        {
            if (!(k >> i & 1))
            {
                o.formats.push_back(all[i]);
            }
        }
        if (o.formats.empty())
        {
            o.formats.push_back(all[1]);
        }
        if (W.ch.choose("topo.format_order", 2))
        {
            std::reverse(o.formats.begin(), o.formats.end());
        }
    }
    // FIFO is always available
    o.modes.push_back(VK_PRESENT_MODE_FIFO_KHR);
    uint32_t m = W.ch.choose("topo.modes", 8);
    if (m & 1)
    {
        o.modes.push_back(VK_PRESENT_MODE_MAILBOX_KHR);
    }
    if (m & 2)
    {
        o.modes.insert(o.modes.begin(), VK_PRESENT_MODE_IMMEDIATE_KHR);
    }
    if (m & 4)
    {
        o.modes.push_back(VK_PRESENT_MODE_FIFO_RELAXED_KHR);
    }
    if (m && is("P13") && W.ch.chance("topo.no_fifo", 80))
    {
        // Not allowed by the specification, but the program is written for it
        o.modes.erase(std::find(o.modes.begin(), o.modes.end(), VK_PRESENT_MODE_FIFO_KHR));
    }
    vary_limits(o);
    return o;
}

static void make_topology()
{
    auto fam = [](VkQueueFlags f, uint32_t n) {
        VkQueueFamilyProperties p{};
        p.queueFlags = f;
        p.queueCount = n;
        return p;
    };
    uint32_t const G = VK_QUEUE_GRAPHICS_BIT, C = VK_QUEUE_COMPUTE_BIT, T = VK_QUEUE_TRANSFER_BIT, S = VK_QUEUE_SPARSE_BINDING_BIT;
    std::vector<std::vector<VkQueueFamilyProperties>> layouts{
        {fam(G | C | T, 16)},
        {fam(G | C | T | S, 16), fam(T | S, 2)},
        {fam(G | C | T, 1), fam(C | T, 8), fam(T, 2)},
        {fam(G | C | T, 1), fam(C | T, 4)},
        {fam(C | T, 2), fam(G | C | T, 4), fam(T, 1)},
        {fam(T, 1), fam(C | T, 2), fam(G | C | T, 1)},
        {fam(G | C | T, 4), fam(T, 1), fam(C | T, 2)},
        {fam(G | C | T, 1), fam(C, 2)},
        {fam(C | T, 1), fam(G | T, 1)},
        {fam(G | C | T, 1), fam(C | T, 1), fam(T, 1)},
        {fam(T, 1), fam(C, 1), fam(G | C | T, 1)},
    };
    uint32_t n = 1 + W.ch.choose("topo.devices", 4);
    if (W.ch.chance("topo.many", 60))
    {
        n = 5 + W.ch.choose("topo.many.devices", 14); // pudding supports up to 15
        W.beyond |= n > 15;
    }
    if (is("P09 P13") && W.ch.chance("topo.none", 10))
    {
        n = 0;
    }
    static uint32_t const vendors[] = {0x8086, 0x10DE, 0x1002, 0x13B5};
    static VkPhysicalDeviceType const types[]
        = {VK_PHYSICAL_DEVICE_TYPE_DISCRETE_GPU, VK_PHYSICAL_DEVICE_TYPE_INTEGRATED_GPU, VK_PHYSICAL_DEVICE_TYPE_CPU,
           VK_PHYSICAL_DEVICE_TYPE_VIRTUAL_GPU};
    for (uint32_t i = 0; i != n; ++i)
    {
        phys_device d;
        d.object_id     = W.make<o_misc>(kind::physical_device).id;
        d.vendor        = vendors[W.ch.choose("topo.vendor", 4)];
        d.type          = types[W.ch.choose("topo.type", 4)];
        d.name          = "simulated gpu " + std::to_string(i);
        d.swapchain_ext = !W.ch.chance("topo.headless", 250);
        d.families      = layouts[W.ch.choose("topo.families", (uint32_t)layouts.size())];
        d.heaps.push_back({uint64_t(1 + W.ch.choose("topo.vram", 12)) << 30, true});
        if (W.ch.choose("topo.heap2", 2))
        {
            d.heaps.push_back({16ull << 30, false});
        }
        if (W.ch.chance("topo.heap3", 300))
        {
            d.heaps.push_back({256ull << 20, true});
        }
        if (d.heaps.size() > 1 && W.ch.chance("topo.heap_order", 400))
        {
            std::rotate(d.heaps.begin(), d.heaps.begin() + 1, d.heaps.end());
        }
        W.phys.push_back(d);
    }
    W.offer = make_offer();
}

// Functions that can fail fatally, and how often they are called early in a run.
struct fatal_target
{
    char const* fn;
    uint32_t max_index;
};
static fatal_target const fatal_targets[]
    = {{"vkQueueSubmit", 12},
       {"vkWaitForFences", 10},
       {"vkResetFences", 10},
       {"vkResetCommandPool", 10},
       {"vkAcquireNextImageKHR", 14},
       {"vkQueuePresentKHR", 12},
       {"vkQueuePresentKHR:surface", 12},
       {"vkBeginCommandBuffer", 12},
       {"vkEndCommandBuffer", 12},
       {"vkCreateSwapchainKHR", 4},
       {"vkGetSwapchainImagesKHR", 6},
       {"vkCreateImageView", 8},
       {"vkCreateRenderPass", 4},
       {"vkCreateFramebuffer", 4},
       {"vkGetPhysicalDeviceSurfaceCapabilitiesKHR", 4},
       {"vkGetPhysicalDeviceSurfaceFormatsKHR", 3},
       {"vkGetPhysicalDeviceSurfacePresentModesKHR", 3},
       {"vkGetPhysicalDeviceSurfaceSupportKHR", 2},
       {"vkCreateSemaphore", 10},
       {"vkCreateFence", 6},
       {"vkCreateCommandPool", 6},
       {"vkAllocateCommandBuffers", 6},
       {"vkCreateDescriptorPool", 1},
       {"vkCreateDevice", 1},
       {"vkCreateInstance", 1},
       {"vmaCreateAllocator", 1},
       {"vkEnumeratePhysicalDevices", 2},
       {"vkEnumerateDeviceExtensionProperties", 3},
       {"vkEnumerateInstanceLayerProperties", 2},
       {"vkEnumerateInstanceExtensionProperties", 2},
       {"vkCreateDebugUtilsMessengerEXT", 1},
       {"SDL_Init", 1},
       {"SDL_Vulkan_LoadLibrary", 1},
       {"SDL_CreateWindow", 3},
       {"SDL_Vulkan_CreateSurface", 3},
       {"SDL_Vulkan_GetInstanceExtensions", 2},
       {"vkDeviceWaitIdle", 4},
       {"vkQueueWaitIdle", 4}};

static bool is(char const* list)
{
    return strstr(list, W.prop.c_str()) != nullptr;
}

static void configure()
{
    auto& c = W.cfg;
    // Swarm: every run switches on its own subset of the faults and behaviours; the property under check decides the
    // odds, never the rules.
    auto on = [](char const* site, uint32_t permille) { return W.ch.chance(site, permille); };
    c.vsync          = !on("cfg.novsync", 350);
    c.validation     = on("cfg.validation", 200);
    c.has_validation = c.validation ? !on("cfg.no_validation_layer", 200) : on("cfg.validation_layer", 200);
    c.unsupported_surface = is("P09 P13") && on("cfg.unsupported_surface", 10);
    c.renderdoc      = on("cfg.renderdoc", 100);
    c.has_renderdoc  = c.renderdoc ? !on("cfg.no_renderdoc_layer", 200) : on("cfg.renderdoc_layer", 100);
    c.has_debug_utils = !on("cfg.no_debug_utils", is("P13") ? 200 : 50);
    c.wm_extensions  = on("cfg.wm_extensions", 150) ? 1 + W.ch.choose("cfg.wm_extensions.n", 4) : 2;
    if (on("cfg.many_extensions", 20))
    {
        c.wm_extensions = 5 + W.ch.choose("cfg.many_extensions.n", 30); // pudding supports up to 31
        W.beyond |= c.wm_extensions > 31;
    }
    c.varied_surfaces = on("cfg.varied_surfaces", is("P13 P05") ? 400 : 200);
    c.windows        = 1 + W.ch.choose("cfg.windows", is("P04 P03 P10 P11") ? 4 : 3);
    if (on("cfg.many_windows", 25))
    {
        c.windows = 8 + W.ch.choose("cfg.many_windows.n", 12);
    }
    c.frames         = 3 + W.ch.choose("cfg.frames", 26);
    if (on("cfg.long", 15))
    {
        c.frames = 262 + W.ch.choose("cfg.long.frames", 300);
    }
    c.resizes        = on("cfg.resizes", is("P05 P02 P10 P13") ? 750 : 350);
    c.spurious_ood   = on("cfg.spurious_ood", is("P05 P02 P03 P10") ? 600 : 300);
    c.suboptimal     = on("cfg.suboptimal", 500);
    c.minimise       = on("cfg.minimise", is("P05 P13") ? 500 : 200);
    c.slow_gpu       = on("cfg.slow_gpu", is("P02 P03 P14 P10 P15") ? 800 : 400);
    c.slow_pe        = on("cfg.slow_pe", 300);
    c.late_release   = on("cfg.late_release", is("P03 P04") ? 700 : 350);
    c.host_jitter    = on("cfg.host_jitter", 300);
    c.window_churn   = on("cfg.window_churn", is("P02 P10 P11 P04 P06 P16") ? 600 : 250);
    c.display_changes = on("cfg.display_changes", c.windows > 7 ? 500 : 120);
    c.custom_targets = on("cfg.custom_targets", is("P08 P02 P10 P15") ? 850 : 300);
    c.portrait_targets = c.custom_targets && on("cfg.portrait_targets", 500);
    c.wide_passes    = c.custom_targets && on("cfg.wide_passes", is("P08") ? 250 : 60);
    c.multisample    = c.custom_targets && on("cfg.multisample", is("P08") ? 250 : 60);
    c.idle_frames    = on("cfg.idle_frames", is("P04") ? 250 : 120);
    c.mutate_targets = c.custom_targets && on("cfg.mutate_targets", 700);
    c.share_targets  = c.custom_targets && on("cfg.share_targets", is("P15") ? 600 : 200);
    c.input          = on("cfg.input", is("P06 P07 P11") ? 1000 : 500);
    c.wild_events    = on("cfg.wild_events", 400);
    c.extra_images   = on("cfg.extra_images", 400);
    c.wayland        = on("cfg.wayland", 250);
    static uint32_t const scales[] = {100, 200, 150, 300, 125};
    c.display_scale  = scales[on("cfg.scaled", 200) ? W.ch.choose("cfg.scale", 5) : 0];
    c.high_dpi       = on("cfg.high_dpi", 500);
    c.own_sizes      = on("cfg.own_sizes", 200);
    c.descriptors    = on("cfg.descriptors", is("P16") ? 800 : 250);
    c.spares         = on("cfg.spares", is("P16") ? 800 : is("P10") ? 500 : is("P02") ? 300 : 80);
    c.clock_wrap     = on("cfg.clock_wrap", is("P07") ? 400 : 100);
    c.reuse_handles  = on("cfg.reuse_handles", is("P08") ? 500 : 300);
    c.long_stalls    = on("cfg.long_stalls", is("P07 P09 P14") ? 300 : 120);
    c.bursts         = on("cfg.bursts", is("P06 P07") ? 250 : 60);
    c.quit_actions   = on("cfg.quit_actions", 400);
    early_quit       = on("cfg.early_quit", is("P11") ? 600 : 250);
    c.alloc_fail     = on("cfg.alloc_fail", is("P09 P02") ? 80 : 0);
    static uint8_t const fills[] = {0, 0xAB, 0xFF, 0x01};
    c.heap_fill = fills[W.ch.choose("cfg.heap_fill", 4)];
    if (is("P09") ? on("cfg.fatal", 850) : on("cfg.fatal2", 40))
    {
        size_t const n = sizeof fatal_targets / sizeof fatal_targets[0];
        auto& t        = fatal_targets[W.ch.choose("cfg.fatal.func", (uint32_t)n)];
        c.fatal_func   = t.fn;
        c.fatal_index  = W.ch.choose("cfg.fatal.index", t.max_index);
        c.fatal_kind   = W.ch.choose("cfg.fatal.kind", 6);
        if (!strncmp(t.fn, "vkCreateDebugUtils", 18))
        {
            c.validation      = true;
            c.has_validation  = true;
            c.has_debug_utils = true;
        }
        if (!strncmp(t.fn, "vkDeviceWaitIdle", 16) || !strncmp(t.fn, "vkQueueWaitIdle", 15))
        {
            c.window_churn = true;
            c.input        = true;
        }
    }
    static uint32_t const bases[] = {1000, 0, 77};
    ticks_base = c.clock_wrap ? 0xFFFFFFFFu - W.ch.choose("cfg.ticks", 400) : bases[W.ch.choose("cfg.ticks.base", 3)];
    if (c.clock_wrap)
    {
        W.count(f_clock_wrap);
    }
    make_topology();
}

static void check_device_choice(bool by_default, uint32_t index)
{
    uint32_t chosen = W.dev_phys;
    if (!chosen)
    {
        W.violate("cap.device-choice", "no device was created");
        W.finish();
    }
    --chosen;
    if (!by_default)
    {
        if (chosen != index)
        {
            W.violate("cap.device-choice", "device %u was asked for, device %u is used", index, chosen);
        }
        return;
    }
    auto rank = [](phys_device const& d) {
        uint64_t vram = 0;
        for (auto& h : d.heaps)
        {
            vram += h.second ? h.first : 0;
        }
        return std::make_tuple(d.swapchain_ext, d.type == VK_PHYSICAL_DEVICE_TYPE_DISCRETE_GPU, vram);
    };
    for (auto& d : W.phys)
    {
        if (rank(W.phys[chosen]) < rank(d))
        {
            W.violate("cap.device-choice", "device %u is used although device %zu is better (presentable, discrete, memory)",
                      chosen, size_t(&d - W.phys.data()));
            return;
        }
    }
}

void run_pudding()
{
    W.sim_depth = 1;
    configure();
    W.log("run: %u windows %u frames vsync %d", W.cfg.windows, W.cfg.frames, W.cfg.vsync);
    auto guarded = [](auto&& f) {
        try
        {
            f();
            return;
        }
        catch (std::exception const& e)
        {
            W.sim_depth = 1;
            if (W.fatal.empty() && !W.alloc_failed && !W.beyond)
            {
                W.violate("stop.spurious", "the program stops with an exception although nothing failed: %s", e.what());
            }
        }
        W.res->stopped_ok = 1;
        W.count(n_stopped_loudly);
        W.finish();
    };
    guarded([] {
        bool by_default = !W.ch.chance("cfg.explicit_device", 250);
        uint32_t index  = 0;
        {
            pd::renderer::desc d{};
            d.app_name          = "sim";
            d.asset_path        = "";
            d.vsync             = W.cfg.vsync;
            d.enable_validation = W.cfg.validation;
            d.enable_renderdoc  = W.cfg.renderdoc;
            real_scope r;
            // The renderer outlives the loop, as in the sample application.
            static auto* renderer = new pd::renderer(d);
            sim_scope s;
            if (!by_default)
            {
                std::vector<uint32_t> ok;
                for (uint32_t i = 0; i != W.phys.size(); ++i)
                {
                    if (W.phys[i].swapchain_ext)
                    {
                        ok.push_back(i);
                    }
                }
                if (ok.empty())
                {
                    by_default = true;
                }
                else
                {
                    index = ok[W.ch.choose("cfg.device", (uint32_t)ok.size())];
                }
            }
            real_scope r2;
            if (by_default)
            {
                renderer->init_default_device();
            }
            else
            {
                renderer->init_device(index);
            }
        }
        check_device_choice(by_default, index);
        W.in_init = false;
        for (uint32_t i = 0; i != W.cfg.windows; ++i)
        {
            create_app(64 + 32 * int(W.ch.choose("cfg.w", 24)), 64 + 32 * int(W.ch.choose("cfg.h", 18)));
        }
        while (W.cfg.spares && W.ch.chance("cfg.spare_more", 750))
        {
            spare_windows();
        }
        for (int sessions = 1;;)
        {
        W.in_loop = true;
        {
            real_scope r;
            pd::pudding::start();
        }
        W.in_loop   = false;
        W.loop_done = true;
        if (!W.fatal.empty())
        {
            W.violate("fault.swallowed", "the program finishes normally after %s", W.fatal.c_str());
        }
        if (!quit_event)
        {
            W.violate("quit.early", "the event loop returned without a quit request");
        }
        settle("the event loop returned");
        for (size_t i = 0; i != apps.size(); ++i)
        {
            auto& a = apps[i];
            if (a.quits > 1)
            {
                W.violate("quit.count", "on_quit ran %u times for application %zu", a.quits, i + 1);
            }
            if (a.alive_at_quit && a.app && a.quits != 1)
            {
                W.violate("quit.count", "application %zu was not told about the quit request", i + 1);
            }
        }
        if (early_quit && W.fatal.empty() && sessions < 3 && W.ch.chance("cfg.again", 300))
        {
            // The user changes their mind: the loop is entered again, with the same windows or with others
            ++sessions;
            W.count(n_loop_entered_again);
            W.log("the loop is entered again");
            quit_event = W.quit_sent = W.loop_done = quit_now = false;
            polls_after_quit                                  = 0;
            if (W.ch.choose("again.windows", 3) == 1)
            {
                while (live_apps())
                {
                    for (size_t i = 0; i != apps.size(); ++i)
                    {
                        if (apps[i].app)
                        {
                            destroy_app(int(i) + 1, "between loops");
                        }
                    }
                }
                create_app(96, 64);
            }
            for (auto& a : apps)
            {
                a.quits         = 0;
                a.alive_at_quit = false;
            }
            W.cfg.frames = uint32_t(W.frame) + 1 + W.ch.choose("again.frames", 8);
            early_quit   = W.ch.choose("again.early", 2);
            continue;
        }
        break;
        }
        // Tear down in any order, with frames possibly still in flight.
        while (live_apps())
        {
            std::vector<int> c;
            for (size_t i = 0; i != apps.size(); ++i)
            {
                if (apps[i].app)
                {
                    c.push_back(int(i) + 1);
                }
            }
            destroy_app(c[W.ch.choose("end.order", (uint32_t)c.size())], "end");
        }
        {
            real_scope r;
            spares.clear();
        }
        for (auto& w : W.windows)
        {
            if (w.alive)
            {
                W.violate("leak.window", "window %u exists although all applications and window objects are gone", w.handle.id);
            }
        }
        for (auto& o : W.objs)
        {
            if (o->alive && o->k == kind::surface)
            {
                W.violate("leak.window-objects", "a surface is alive after its window is gone");
            }
        }
    });
    W.finish();
}
} // namespace sim
