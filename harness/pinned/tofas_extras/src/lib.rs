pub mod sun_angle;
