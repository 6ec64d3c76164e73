// Redirects absolute paths below given prefixes into scratch directories (harnesses without nvm.cpp).
#pragma once
#include <string>
namespace paths
{
void redirect(const std::string &prefix, const std::string &dir); // adds a rule
void reset();
}
