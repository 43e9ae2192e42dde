// Simulated VulkanMemoryAllocator 2.2 interface (the part pudding uses).
#pragma once
#include <vulkan/vulkan.h>
typedef struct VmaAllocator_T* VmaAllocator;
typedef VkFlags VmaAllocatorCreateFlags;
typedef struct VmaAllocatorCreateInfo
{
    VmaAllocatorCreateFlags flags;
    VkPhysicalDevice physicalDevice;
    VkDevice device;
    VkDeviceSize preferredLargeHeapBlockSize;
    const VkAllocationCallbacks* pAllocationCallbacks;
    const void* pDeviceMemoryCallbacks;
    uint32_t frameInUseCount;
    const VkDeviceSize* pHeapSizeLimit;
    const void* pVulkanFunctions;
    const void* pRecordSettings;
} VmaAllocatorCreateInfo;
extern "C" VkResult vmaCreateAllocator(const VmaAllocatorCreateInfo*, VmaAllocator*);
extern "C" void vmaDestroyAllocator(VmaAllocator);
