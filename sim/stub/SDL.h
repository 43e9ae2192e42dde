// Simulated SDL 2.0.10 interface: declarations and struct layouts as in SDL2, implemented by
// ../pudding/sdl.cpp.
#pragma once
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>

typedef uint8_t Uint8;
typedef uint16_t Uint16;
typedef uint32_t Uint32;
typedef uint64_t Uint64;
typedef int16_t Sint16;
typedef int32_t Sint32;
typedef int64_t Sint64;
typedef enum { SDL_FALSE = 0, SDL_TRUE = 1 } SDL_bool;

#define SDL_INIT_TIMER 0x00000001u
#define SDL_INIT_VIDEO 0x00000020u
#define SDL_INIT_EVENTS 0x00004000u
#define SDL_WINDOWPOS_CENTERED 0x2FFF0000u
#define SDL_WINDOWPOS_UNDEFINED 0x1FFF0000u

typedef enum {
    SDL_WINDOW_FULLSCREEN = 0x1, SDL_WINDOW_OPENGL = 0x2, SDL_WINDOW_SHOWN = 0x4, SDL_WINDOW_HIDDEN = 0x8,
    SDL_WINDOW_BORDERLESS = 0x10, SDL_WINDOW_RESIZABLE = 0x20, SDL_WINDOW_MINIMIZED = 0x40, SDL_WINDOW_MAXIMIZED = 0x80,
    SDL_WINDOW_INPUT_GRABBED = 0x100, SDL_WINDOW_INPUT_FOCUS = 0x200, SDL_WINDOW_MOUSE_FOCUS = 0x400,
    SDL_WINDOW_FULLSCREEN_DESKTOP = 0x1001, SDL_WINDOW_ALLOW_HIGHDPI = 0x2000, SDL_WINDOW_ALWAYS_ON_TOP = 0x8000,
    SDL_WINDOW_FOREIGN = 0x800, SDL_WINDOW_MOUSE_CAPTURE = 0x4000, SDL_WINDOW_SKIP_TASKBAR = 0x10000, SDL_WINDOW_UTILITY = 0x20000,
    SDL_WINDOW_TOOLTIP = 0x40000, SDL_WINDOW_POPUP_MENU = 0x80000, SDL_WINDOW_VULKAN = 0x10000000
} SDL_WindowFlags;

typedef enum {
    SDL_FIRSTEVENT = 0, SDL_QUIT = 0x100, SDL_APP_TERMINATING, SDL_APP_LOWMEMORY, SDL_APP_WILLENTERBACKGROUND,
    SDL_APP_DIDENTERBACKGROUND, SDL_APP_WILLENTERFOREGROUND, SDL_APP_DIDENTERFOREGROUND, SDL_DISPLAYEVENT = 0x150, SDL_WINDOWEVENT = 0x200, SDL_SYSWMEVENT, SDL_KEYDOWN = 0x300,
    SDL_KEYUP, SDL_TEXTEDITING, SDL_TEXTINPUT, SDL_KEYMAPCHANGED, SDL_MOUSEMOTION = 0x400, SDL_MOUSEBUTTONDOWN,
    SDL_MOUSEBUTTONUP, SDL_MOUSEWHEEL, SDL_JOYAXISMOTION = 0x600, SDL_CONTROLLERAXISMOTION = 0x650, SDL_FINGERDOWN = 0x700, SDL_FINGERUP,
    SDL_FINGERMOTION, SDL_CLIPBOARDUPDATE = 0x900, SDL_DROPFILE = 0x1000, SDL_DROPTEXT, SDL_DROPBEGIN, SDL_DROPCOMPLETE, SDL_AUDIODEVICEADDED = 0x1100, SDL_RENDER_TARGETS_RESET = 0x2000,
    SDL_USEREVENT = 0x8000, SDL_LASTEVENT = 0xFFFF
} SDL_EventType;

typedef enum {
    SDL_WINDOWEVENT_NONE, SDL_WINDOWEVENT_SHOWN, SDL_WINDOWEVENT_HIDDEN, SDL_WINDOWEVENT_EXPOSED, SDL_WINDOWEVENT_MOVED,
    SDL_WINDOWEVENT_RESIZED, SDL_WINDOWEVENT_SIZE_CHANGED, SDL_WINDOWEVENT_MINIMIZED, SDL_WINDOWEVENT_MAXIMIZED,
    SDL_WINDOWEVENT_RESTORED, SDL_WINDOWEVENT_ENTER, SDL_WINDOWEVENT_LEAVE, SDL_WINDOWEVENT_FOCUS_GAINED,
    SDL_WINDOWEVENT_FOCUS_LOST, SDL_WINDOWEVENT_CLOSE, SDL_WINDOWEVENT_TAKE_FOCUS, SDL_WINDOWEVENT_HIT_TEST
} SDL_WindowEventID;

typedef Sint32 SDL_Keycode;
typedef int SDL_Scancode;
typedef Sint64 SDL_FingerID;
typedef Sint64 SDL_TouchID;
typedef struct SDL_Keysym { SDL_Scancode scancode; SDL_Keycode sym; Uint16 mod; Uint32 unused; } SDL_Keysym;

typedef enum {
    KMOD_NONE = 0, KMOD_LSHIFT = 0x1, KMOD_RSHIFT = 0x2, KMOD_LCTRL = 0x40, KMOD_RCTRL = 0x80, KMOD_LALT = 0x100, KMOD_RALT = 0x200,
    KMOD_LGUI = 0x400, KMOD_RGUI = 0x800, KMOD_NUM = 0x1000, KMOD_CAPS = 0x2000, KMOD_MODE = 0x4000, KMOD_RESERVED = 0x8000,
    KMOD_SHIFT = 0x3, KMOD_CTRL = 0xC0, KMOD_ALT = 0x300, KMOD_GUI = 0xC00
} SDL_Keymod;
#define SDLK_SCANCODE_MASK (1 << 30)
#define SDL_SCANCODE_TO_KEYCODE(X) ((X) | SDLK_SCANCODE_MASK)
#define SDL_NUM_SCANCODES 512
enum {
    SDLK_UNKNOWN = 0, SDLK_RETURN = '\r', SDLK_ESCAPE = 27, SDLK_BACKSPACE = 8, SDLK_TAB = 9, SDLK_SPACE = ' ', SDLK_DELETE = 127,
    SDLK_a = 'a',
    SDLK_b = 'b',
    SDLK_c = 'c',
    SDLK_d = 'd',
    SDLK_e = 'e',
    SDLK_f = 'f',
    SDLK_g = 'g',
    SDLK_h = 'h',
    SDLK_i = 'i',
    SDLK_j = 'j',
    SDLK_k = 'k',
    SDLK_l = 'l',
    SDLK_m = 'm',
    SDLK_n = 'n',
    SDLK_o = 'o',
    SDLK_p = 'p',
    SDLK_q = 'q',
    SDLK_r = 'r',
    SDLK_s = 's',
    SDLK_t = 't',
    SDLK_u = 'u',
    SDLK_v = 'v',
    SDLK_w = 'w',
    SDLK_x = 'x',
    SDLK_y = 'y',
    SDLK_z = 'z',
    SDLK_0 = '0',
    SDLK_1 = '1',
    SDLK_2 = '2',
    SDLK_3 = '3',
    SDLK_4 = '4',
    SDLK_5 = '5',
    SDLK_6 = '6',
    SDLK_7 = '7',
    SDLK_8 = '8',
    SDLK_9 = '9',
    SDLK_F1 = 58 | SDLK_SCANCODE_MASK,
    SDLK_F2 = 59 | SDLK_SCANCODE_MASK,
    SDLK_F3 = 60 | SDLK_SCANCODE_MASK,
    SDLK_F4 = 61 | SDLK_SCANCODE_MASK,
    SDLK_F5 = 62 | SDLK_SCANCODE_MASK,
    SDLK_F6 = 63 | SDLK_SCANCODE_MASK,
    SDLK_F7 = 64 | SDLK_SCANCODE_MASK,
    SDLK_F8 = 65 | SDLK_SCANCODE_MASK,
    SDLK_F9 = 66 | SDLK_SCANCODE_MASK,
    SDLK_F10 = 67 | SDLK_SCANCODE_MASK,
    SDLK_F11 = 68 | SDLK_SCANCODE_MASK,
    SDLK_F12 = 69 | SDLK_SCANCODE_MASK,
    SDLK_CAPSLOCK = 57 | SDLK_SCANCODE_MASK, SDLK_RIGHT = 79 | SDLK_SCANCODE_MASK, SDLK_LEFT = 80 | SDLK_SCANCODE_MASK,
    SDLK_DOWN = 81 | SDLK_SCANCODE_MASK, SDLK_UP = 82 | SDLK_SCANCODE_MASK, SDLK_LCTRL = 224 | SDLK_SCANCODE_MASK,
    SDLK_LSHIFT = 225 | SDLK_SCANCODE_MASK, SDLK_LALT = 226 | SDLK_SCANCODE_MASK, SDLK_LGUI = 227 | SDLK_SCANCODE_MASK,
    SDLK_RCTRL = 228 | SDLK_SCANCODE_MASK, SDLK_RSHIFT = 229 | SDLK_SCANCODE_MASK, SDLK_RALT = 230 | SDLK_SCANCODE_MASK,
    SDLK_RGUI = 231 | SDLK_SCANCODE_MASK
};
#define SDL_RELEASED 0
#define SDL_PRESSED 1
#define SDL_BUTTON(X) (1 << ((X)-1))
#define SDL_BUTTON_LEFT 1
#define SDL_BUTTON_MIDDLE 2
#define SDL_BUTTON_RIGHT 3
#define SDL_BUTTON_X1 4
#define SDL_BUTTON_X2 5
#define SDL_BUTTON_LMASK SDL_BUTTON(SDL_BUTTON_LEFT)
#define SDL_BUTTON_MMASK SDL_BUTTON(SDL_BUTTON_MIDDLE)
#define SDL_BUTTON_RMASK SDL_BUTTON(SDL_BUTTON_RIGHT)

typedef struct SDL_CommonEvent { Uint32 type; Uint32 timestamp; } SDL_CommonEvent;
typedef struct SDL_WindowEvent { Uint32 type; Uint32 timestamp; Uint32 windowID; Uint8 event; Uint8 padding1, padding2, padding3; Sint32 data1; Sint32 data2; } SDL_WindowEvent;
typedef struct SDL_KeyboardEvent { Uint32 type; Uint32 timestamp; Uint32 windowID; Uint8 state; Uint8 repeat; Uint8 padding2, padding3; SDL_Keysym keysym; } SDL_KeyboardEvent;
typedef struct SDL_TextEditingEvent { Uint32 type; Uint32 timestamp; Uint32 windowID; char text[32]; Sint32 start; Sint32 length; } SDL_TextEditingEvent;
typedef struct SDL_TextInputEvent { Uint32 type; Uint32 timestamp; Uint32 windowID; char text[32]; } SDL_TextInputEvent;
typedef struct SDL_MouseMotionEvent { Uint32 type; Uint32 timestamp; Uint32 windowID; Uint32 which; Uint32 state; Sint32 x; Sint32 y; Sint32 xrel; Sint32 yrel; } SDL_MouseMotionEvent;
typedef struct SDL_MouseButtonEvent { Uint32 type; Uint32 timestamp; Uint32 windowID; Uint32 which; Uint8 button; Uint8 state; Uint8 clicks; Uint8 padding1; Sint32 x; Sint32 y; } SDL_MouseButtonEvent;
#define SDL_TOUCH_MOUSEID ((Uint32)-1)
typedef enum { SDL_MOUSEWHEEL_NORMAL, SDL_MOUSEWHEEL_FLIPPED } SDL_MouseWheelDirection;
typedef struct SDL_MouseWheelEvent { Uint32 type; Uint32 timestamp; Uint32 windowID; Uint32 which; Sint32 x; Sint32 y; Uint32 direction; } SDL_MouseWheelEvent;
typedef struct SDL_TouchFingerEvent { Uint32 type; Uint32 timestamp; SDL_TouchID touchId; SDL_FingerID fingerId; float x, y, dx, dy, pressure; Uint32 windowID; } SDL_TouchFingerEvent;
typedef struct SDL_QuitEvent { Uint32 type; Uint32 timestamp; } SDL_QuitEvent;
typedef struct SDL_UserEvent { Uint32 type; Uint32 timestamp; Uint32 windowID; Sint32 code; void* data1; void* data2; } SDL_UserEvent;
typedef union SDL_Event {
    Uint32 type;
    SDL_CommonEvent common;
    SDL_WindowEvent window;
    SDL_KeyboardEvent key;
    SDL_TextEditingEvent edit;
    SDL_TextInputEvent text;
    SDL_MouseMotionEvent motion;
    SDL_MouseButtonEvent button;
    SDL_MouseWheelEvent wheel;
    SDL_QuitEvent quit;
    SDL_UserEvent user;
    SDL_TouchFingerEvent tfinger;
    Uint8 padding[56];
} SDL_Event;

typedef struct SDL_Window SDL_Window;
#define SDL_TICKS_PASSED(A, B) ((Sint32)((B) - (A)) <= 0)

#ifdef __cplusplus
extern "C" {
#endif
int SDL_Init(Uint32 flags);
void SDL_Quit(void);
const char* SDL_GetError(void);
SDL_Window* SDL_CreateWindow(const char* title, int x, int y, int w, int h, Uint32 flags);
void SDL_DestroyWindow(SDL_Window* window);
Uint32 SDL_GetWindowID(SDL_Window* window);
Uint32 SDL_GetWindowFlags(SDL_Window* window);
void SDL_GetWindowSize(SDL_Window* window, int* w, int* h);
int SDL_PollEvent(SDL_Event* event);
Uint32 SDL_GetMouseState(int* x, int* y);
Uint32 SDL_GetTicks(void);
Uint64 SDL_GetPerformanceCounter(void);
Uint64 SDL_GetPerformanceFrequency(void);
void SDL_PumpEvents(void);
int SDL_WaitEventTimeout(SDL_Event* event, int timeout);
SDL_Window* SDL_GetWindowFromID(Uint32 id);
void SDL_SetWindowTitle(SDL_Window* window, const char* title);
void SDL_SetWindowSize(SDL_Window* window, int w, int h);
void SDL_SetWindowResizable(SDL_Window* window, SDL_bool resizable);
void SDL_SetWindowGrab(SDL_Window* window, SDL_bool grabbed);
void SDL_SetWindowAlwaysOnTop(SDL_Window* window, SDL_bool on_top);
int SDL_SetWindowFullscreen(SDL_Window* window, Uint32 flags);
void SDL_SetWindowPosition(SDL_Window* window, int x, int y);
void SDL_ShowWindow(SDL_Window* window);
const char* SDL_GetWindowTitle(SDL_Window* window);
void SDL_GetWindowPosition(SDL_Window* window, int* x, int* y);
int SDL_WaitEvent(SDL_Event* event);
SDL_bool SDL_HasEvent(Uint32 type);
SDL_bool SDL_HasEvents(Uint32 min, Uint32 max);
void SDL_FlushEvent(Uint32 type);
void SDL_FlushEvents(Uint32 min, Uint32 max);
Uint32 SDL_GetGlobalMouseState(int* x, int* y);
int SDL_InitSubSystem(Uint32 flags);
Uint32 SDL_WasInit(Uint32 flags);
void SDL_QuitSubSystem(Uint32 flags);
void SDL_ClearError(void);
void SDL_Delay(Uint32 ms);
typedef enum { SDL_ADDEVENT, SDL_PEEKEVENT, SDL_GETEVENT } SDL_eventaction;
int SDL_PeepEvents(SDL_Event* events, int count, SDL_eventaction action, Uint32 min, Uint32 max);
SDL_Keymod SDL_GetModState(void);
Uint64 SDL_GetTicks64(void);
SDL_Window* SDL_GetKeyboardFocus(void);
SDL_Window* SDL_GetMouseFocus(void);
void SDL_HideWindow(SDL_Window* window);
void SDL_RaiseWindow(SDL_Window* window);
#ifdef __cplusplus
}
#endif
