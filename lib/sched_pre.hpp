// Force-included into code that runs under the controlled scheduler.
#pragma once
