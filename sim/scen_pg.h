#pragma once
namespace sim {
bool pgEnabled();
void c12Pg(); void c17Copy(); void c18Pg();
}
