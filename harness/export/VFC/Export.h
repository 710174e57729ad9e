#pragma once
#define VFC_EXPORT
