// Simulated GUI, declared like Dear ImGui (docking branch). Implemented by appsim.cpp.
#pragma once
#include <cstddef>

struct ImVec2
{
    float x = 0, y = 0;
    constexpr ImVec2() = default;
    constexpr ImVec2(float x, float y) : x{x}, y{y} {}
    float&       operator[](std::size_t i) { return i == 0 ? x : y; }
    const float& operator[](std::size_t i) const { return i == 0 ? x : y; }
};
struct ImVec4
{
    float x = 0, y = 0, z = 0, w = 0;
    constexpr ImVec4() = default;
    constexpr ImVec4(float x, float y, float z, float w) : x{x}, y{y}, z{z}, w{w} {}
};

typedef unsigned int ImGuiID;
typedef int ImGuiConfigFlags, ImGuiDockNodeFlags, ImGuiWindowFlags, ImGuiTableFlags, ImGuiDir, ImGuiCol, ImGuiStyleVar,
    ImGuiSelectableFlags, ImGuiSliderFlags, ImGuiColorEditFlags, ImGuiTableColumnFlags, ImGuiTreeNodeFlags, ImGuiCond;

enum { ImGuiConfigFlags_None = 0, ImGuiConfigFlags_NavEnableKeyboard = 1, ImGuiConfigFlags_NavEnableGamepad = 2, ImGuiConfigFlags_DockingEnable = 1 << 6, ImGuiConfigFlags_ViewportsEnable = 1 << 10 };
enum { ImGuiDockNodeFlags_None = 0, ImGuiDockNodeFlags_PassthruCentralNode = 1 << 3 };
enum { ImGuiWindowFlags_None = 0, ImGuiWindowFlags_NoResize = 2, ImGuiWindowFlags_NoMove = 4, ImGuiWindowFlags_NoCollapse = 32, ImGuiWindowFlags_AlwaysAutoResize = 64 };
enum { ImGuiTableFlags_None = 0, ImGuiTableFlags_RowBg = 64, ImGuiTableFlags_Borders = 1920 };
enum { ImGuiDir_None = -1, ImGuiDir_Left = 0, ImGuiDir_Right = 1, ImGuiDir_Up = 2, ImGuiDir_Down = 3 };
enum { ImGuiCol_Text = 0, ImGuiCol_WindowBg = 2, ImGuiCol_COUNT = 64 };

struct ImGuiStyle { ImVec4 Colors[ImGuiCol_COUNT]; float WindowRounding = 0; };
struct ImGuiIO
{
    ImGuiConfigFlags ConfigFlags = 0;
    ImVec2           DisplaySize{}, DisplayFramebufferScale{1, 1}, MousePos{};
    float            DeltaTime = 1.f / 60.f, Framerate = 60.f;
    const char*      IniFilename         = nullptr;
    bool             WantCaptureMouse    = false;
    bool             WantCaptureKeyboard = false;
    bool             WantTextInput       = false;
};
struct ImGuiViewport { ImGuiID ID = 0; ImVec2 Pos{}, Size{}, WorkPos{}, WorkSize{}; };
struct ImDrawData;
struct ImGuiContext;
struct ImFontAtlas;

#define IMGUI_VERSION "simulated"
#define IMGUI_CHECKVERSION() ImGui::DebugCheckVersionAndDataLayout()
#define IM_ASSERT(x) ((void)(x))

namespace ImGui
{
bool           DebugCheckVersionAndDataLayout();
ImGuiContext*  CreateContext(ImFontAtlas* = nullptr);
void           DestroyContext(ImGuiContext* = nullptr);
ImGuiIO&       GetIO();
ImGuiStyle&    GetStyle();
void           StyleColorsDark(ImGuiStyle* = nullptr);
void           NewFrame();
void           EndFrame();
void           Render();
ImDrawData*    GetDrawData();
void           UpdatePlatformWindows();
void           RenderPlatformWindowsDefault(void* = nullptr, void* = nullptr);
ImGuiViewport* GetMainViewport();
ImGuiID        DockSpaceOverViewport(ImGuiID, const ImGuiViewport* = nullptr, ImGuiDockNodeFlags = 0);

bool BeginMainMenuBar();
void EndMainMenuBar();
bool BeginMenuBar();
void EndMenuBar();
bool BeginMenu(const char*, bool = true);
void EndMenu();
bool MenuItem(const char*, const char* = nullptr, bool = false, bool = true);
bool MenuItem(const char*, const char*, bool*, bool = true);

bool Begin(const char*, bool* = nullptr, ImGuiWindowFlags = 0);
void End();
bool BeginTable(const char*, int, ImGuiTableFlags = 0, const ImVec2& = ImVec2(0, 0), float = 0);
void EndTable();
void TableSetupColumn(const char*, ImGuiTableColumnFlags = 0, float = 0, ImGuiID = 0);
void TableHeadersRow();
void TableNextRow(int = 0, float = 0);
bool TableNextColumn();
bool TableSetColumnIndex(int);

void Text(const char*, ...) __attribute__((format(printf, 1, 2)));
void TextUnformatted(const char*, const char* = nullptr);
bool Button(const char*, const ImVec2& = ImVec2(0, 0));
bool SmallButton(const char*);
bool Checkbox(const char*, bool*);
bool RadioButton(const char*, bool);
bool Selectable(const char*, bool = false, ImGuiSelectableFlags = 0, const ImVec2& = ImVec2(0, 0));
bool Selectable(const char*, bool*, ImGuiSelectableFlags = 0, const ImVec2& = ImVec2(0, 0));
bool SliderInt(const char*, int*, int, int, const char* = "%d", ImGuiSliderFlags = 0);
bool SliderFloat(const char*, float*, float, float, const char* = "%.3f", ImGuiSliderFlags = 0);
bool SliderFloat2(const char*, float[2], float, float, const char* = "%.3f", ImGuiSliderFlags = 0);
bool SliderAngle(const char*, float*, float = -360, float = 360, const char* = "%.0f deg", ImGuiSliderFlags = 0);
bool ColorEdit3(const char*, float[3], ImGuiColorEditFlags = 0);
bool ColorEdit4(const char*, float[4], ImGuiColorEditFlags = 0);

void Separator();
void Spacing();
void SameLine(float = 0, float = -1);
void NewLine();
void PushItemWidth(float);
void PopItemWidth();
void SetNextItemWidth(float);
void PushID(const char*);
void PushID(int);
void PushID(const void*);
void PopID();
void BeginDisabled(bool = true);
void EndDisabled();
bool IsItemHovered(int = 0);
bool IsAnyItemHovered();
}
