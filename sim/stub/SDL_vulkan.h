// Simulated SDL 2.0.10 Vulkan interface.
#pragma once
#include "SDL.h"
#include <vulkan/vulkan.h>
extern "C" {
int SDL_Vulkan_LoadLibrary(const char* path);
void* SDL_Vulkan_GetVkGetInstanceProcAddr(void);
void SDL_Vulkan_UnloadLibrary(void);
SDL_bool SDL_Vulkan_GetInstanceExtensions(SDL_Window* window, unsigned int* pCount, const char** pNames);
SDL_bool SDL_Vulkan_CreateSurface(SDL_Window* window, VkInstance instance, VkSurfaceKHR* surface);
void SDL_Vulkan_GetDrawableSize(SDL_Window* window, int* w, int* h);
}
