#pragma once
#include "imgui.h"

struct ImGuiWindowTempData { ImVec2 CursorStartPos{}, CursorMaxPos{}; };
struct ImGuiWindow { const char* Name = ""; ImGuiWindowTempData DC; };
struct ImGuiDockNode;

enum { ImGuiDockNodeFlags_DockSpace = 1 << 10 };

namespace ImGui
{
ImGuiWindow*   FindWindowByName(const char*);
ImGuiWindow*   GetCurrentWindow();
void           DockBuilderDockWindow(const char*, ImGuiID);
ImGuiDockNode* DockBuilderGetNode(ImGuiID);
ImGuiID        DockBuilderAddNode(ImGuiID = 0, ImGuiDockNodeFlags = 0);
void           DockBuilderRemoveNode(ImGuiID);
void           DockBuilderSetNodeSize(ImGuiID, ImVec2);
ImGuiID        DockBuilderSplitNode(ImGuiID, ImGuiDir, float, ImGuiID*, ImGuiID*);
void           DockBuilderFinish(ImGuiID);
}
