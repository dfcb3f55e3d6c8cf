#pragma once
#include "app/openemsh.hpp"
#include <cstdio>
namespace ui::qt {
struct MainWindow {
	app::OpenEMSH& o;
	explicit MainWindow(app::OpenEMSH& o) : o(o) {}
	void show() {}
	bool parse_and_display() {
		std::printf("GUI input=%s output=%s\n", o.get_params().input.c_str(), o.get_params().output.c_str());
		return true;
	}
};
}
