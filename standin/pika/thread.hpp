#pragma once
#include <pika/vk_core.hpp>
