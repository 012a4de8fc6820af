#include "crocoddyl/multibody/pch.hpp"
